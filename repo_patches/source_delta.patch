From f92f6055cf181975b17feda23434e2e56c978642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:41 +0000
Subject: [PATCH 01/44] fix: take an extra dynamic-bind worker out of the free
 set when it is handed out

useWorker returned the same extra worker for every connection beyond the
core pool, replacing its task queue each time, so that two live connections
shared one worker and the first one's queue was orphaned.
---
 znet/msghandler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/znet/msghandler.go b/znet/msghandler.go
index 9d11558..4e0d049 100644
--- a/znet/msghandler.go
+++ b/znet/msghandler.go
@@ -193,6 +193,7 @@ func useWorker(conn ziface.IConnection) uint32 {
 		mh.extraFreeWorkerMu.Lock()
 		defer mh.extraFreeWorkerMu.Unlock()
 		for workerID := range mh.extraFreeWorkers {
+			delete(mh.extraFreeWorkers, workerID)
 			zlog.Ins().DebugF("start extra worker, workerID=%d", workerID)
 			mh.TaskQueue[workerID] = make(chan ziface.IRequest, zconf.GlobalObject.MaxWorkerTaskLen)
 			go mh.StartOneWorker(int(workerID), mh.TaskQueue[workerID])
-- 
2.43.0


From 481a47fca3ac22e4efe6b6fa4fe9fcb092e83483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:28 +0000
Subject: [PATCH 02/44] fix: consume oversized frames in the length-field
 decoder

The bytes of a frame longer than MaxFrameLength were skipped in a local
buffer only and stayed in the decoder's input, so they were parsed again and
the frames behind an oversized frame were lost or misread.
---
 zinterceptor/framedecoder.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/zinterceptor/framedecoder.go b/zinterceptor/framedecoder.go
index cd3db2b..3426b18 100644
--- a/zinterceptor/framedecoder.go
+++ b/zinterceptor/framedecoder.go
@@ -497,6 +497,9 @@ func (d *FrameDecoder) decode(buf []byte) []byte {
 	// Determine if it is in discard mode (判断是否为丢弃模式)
 	if d.discardingTooLongFrame {
 		d.discardingTooLongFrameFunc(in)
+		// The discarded bytes must not be looked at again
+		// (已丢弃的字节不能再次被解析)
+		d.in = in.Bytes()
 	}
 
 	// Determine if the number of readable bytes in the buffer is less than the offset of the length field
@@ -538,6 +541,13 @@ func (d *FrameDecoder) decode(buf []byte) []byte {
 		// It has exceeded the maximum length of a single data frame, and the exceeded part is processed
 		// (已经超过单次数据帧最大长度，对超过的部分进行处理)
 		d.exceededFrameLength(in, frameLength)
+		// Drop the skipped bytes from the accumulated data as well and, if the whole frame has been
+		// skipped already, go on with the frame behind it
+		// (同步丢弃累积数据，若该帧已全部丢弃则继续解析后面的帧)
+		d.in = in.Bytes()
+		if !d.discardingTooLongFrame {
+			return d.decode(d.in)
+		}
 		return nil
 	}
 
-- 
2.43.0


From 22993c07399a5986b67f9de03b517e1abcf2de8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:28 +0000
Subject: [PATCH 03/44] fix: reject frame lengths smaller than the length-field
 header

With a negative LengthAdjustment a small length field gave a frame length of
zero (decoding never ended), below the header (header fragments were
delivered as frames) or negative.
---
 zinterceptor/framedecoder.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/zinterceptor/framedecoder.go b/zinterceptor/framedecoder.go
index 3426b18..0575f2c 100644
--- a/zinterceptor/framedecoder.go
+++ b/zinterceptor/framedecoder.go
@@ -491,6 +491,11 @@ func (d *FrameDecoder) failOnFrameLengthLessThanInitialBytesToStrip(in *bytes.Bu
 	panic(fmt.Sprintf("Adjusted frame length (%d) is less  than InitialBytesToStrip: %d", frameLength, initialBytesToStrip))
 }
 
+func (d *FrameDecoder) failOnFrameLengthLessThanLengthFieldEndOffset(in *bytes.Buffer, frameLength int64, lengthFieldEndOffset int) {
+	in.Next(lengthFieldEndOffset)
+	panic(fmt.Sprintf("Adjusted frame length (%d) is less than LengthFieldEndOffset: %d", frameLength, lengthFieldEndOffset))
+}
+
 func (d *FrameDecoder) decode(buf []byte) []byte {
 	in := bytes.NewBuffer(buf)
 
@@ -535,6 +540,12 @@ func (d *FrameDecoder) decode(buf []byte) []byte {
 	// So the frameLength calculated in the end is the length of the entire data packet (那说明最后计算出的frameLength就是整个数据包的长度)
 	frameLength += int64(d.LengthAdjustment) + int64(d.LengthFieldEndOffset)
 
+	// A frame cannot be shorter than the header that announces it
+	// (数据帧长度不可能小于其头部长度)
+	if frameLength < int64(d.LengthFieldEndOffset) {
+		d.failOnFrameLengthLessThanLengthFieldEndOffset(in, frameLength, d.LengthFieldEndOffset)
+	}
+
 	// Discard mode is turned on here (丢弃模式就是在这开启的)
 	// If the data packet length is greater than the maximum length (如果数据包长度大于最大长度)
 	if uint64(frameLength) > d.MaxFrameLength {
-- 
2.43.0


From 453443607531a5fec99a7eec8f5396f12297429c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:28 +0000
Subject: [PATCH 04/44] fix: drop HTLV frames with a wrong CRC instead of
 dereferencing nil

---
 zdecoder/htlvcrcdecoder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zdecoder/htlvcrcdecoder.go b/zdecoder/htlvcrcdecoder.go
index 09e39f0..222d5fa 100644
--- a/zdecoder/htlvcrcdecoder.go
+++ b/zdecoder/htlvcrcdecoder.go
@@ -135,6 +135,11 @@ func (hcd *HtlvCrcDecoder) Intercept(chain ziface.IChain) ziface.IcResp {
 
 	//4. HTLV+CRC Decode
 	htlvData := hcd.decode(data)
+	if htlvData == nil {
+		// The CRC does not match, drop the message
+		// (CRC校验失败，丢弃该消息)
+		return nil
+	}
 
 	//5. Set the decoded data back to the IMessage, the Zinx Router needs MsgID for addressing
 	// (将解码后的数据重新设置到IMessage中, Zinx的Router需要MsgID来寻址)
-- 
2.43.0


From 186db4455fa1cfd5e22b3805a983fd13381371e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:28 +0000
Subject: [PATCH 05/44] fix: allow HTLV frames with the largest body

Header and CRC take five bytes, so a frame with 255 bytes of data is 260
bytes long and was discarded as too long.
---
 zdecoder/htlvcrcdecoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zdecoder/htlvcrcdecoder.go b/zdecoder/htlvcrcdecoder.go
index 222d5fa..8a2e473 100644
--- a/zdecoder/htlvcrcdecoder.go
+++ b/zdecoder/htlvcrcdecoder.go
@@ -81,7 +81,7 @@ func (hcd *HtlvCrcDecoder) GetLengthField() *ziface.LengthField {
 	//   initialBytesToStrip = 0   (这个0表示完整的协议内容，如果不想要A2，那么这里就是1) 从解码帧中第一次去除的字节数
 	//   maxFrameLength      = 255 + 4(起始码、功能码、CRC) (len是1个byte，所以最大长度是无符号1个byte的最大值)
 	return &ziface.LengthField{
-		MaxFrameLength:      math.MaxUint8 + 4,
+		MaxFrameLength:      math.MaxUint8 + HEADER_SIZE, // head, function, length and CRC
 		LengthFieldOffset:   2,
 		LengthFieldLength:   1,
 		LengthAdjustment:    2,
-- 
2.43.0


From 4ccc740063afd3d4295cf1856d28f5635c018f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:33 +0000
Subject: [PATCH 06/44] fix: give connections their context when they are
 created

A connection is visible through the connection manager before Start runs; Stop
or a buffered send at that moment used a nil cancel function or context.
---
 znet/connection.go     |  6 +++++-
 znet/kcp_connection.go |  6 +++++-
 znet/ws_connection.go  | 12 ++++++------
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/znet/connection.go b/znet/connection.go
index 4973bea..6868dde 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -147,6 +147,10 @@ func newServerConn(server ziface.IServer, conn net.Conn, connID uint64) ziface.I
 	c.onConnStop = server.GetOnConnStop()
 	c.msgHandler = server.GetMsgHandler()
 
+	// The context exists before anyone can get hold of the connection
+	// (在连接可以被获取到之前先创建好上下文)
+	c.ctx, c.cancel = context.WithCancel(context.Background())
+
 	// Bind the current Connection with the Server's ConnManager
 	// (将当前的Connection与Server的ConnManager绑定)
 	c.connManager = server.GetConnMgr()
@@ -184,6 +188,7 @@ func newClientConn(client ziface.IClient, conn net.Conn) ziface.IConnection {
 	c.onConnStart = client.GetOnConnStart()
 	c.onConnStop = client.GetOnConnStop()
 	c.msgHandler = client.GetMsgHandler()
+	c.ctx, c.cancel = context.WithCancel(context.Background())
 
 	return c
 }
@@ -295,7 +300,6 @@ func (c *Connection) Start() {
 			zlog.Ins().ErrorF("Connection Start() error: %v", err)
 		}
 	}()
-	c.ctx, c.cancel = context.WithCancel(context.Background())
 
 	// Execute the hook method for processing business logic when creating a connection
 	// (按照用户传递进来的创建连接时需要处理的业务，执行钩子方法)
diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index e42183e..eeb3e43 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -145,6 +145,10 @@ func newKcpServerConn(server ziface.IServer, conn *kcp.UDPSession, connID uint64
 	c.onConnStop = server.GetOnConnStop()
 	c.msgHandler = server.GetMsgHandler()
 
+	// The context exists before anyone can get hold of the connection
+	// (在连接可以被获取到之前先创建好上下文)
+	c.ctx, c.cancel = context.WithCancel(context.Background())
+
 	// Bind the current Connection with the Server's ConnManager
 	// (将当前的Connection与Server的ConnManager绑定)
 	c.connManager = server.GetConnMgr()
@@ -180,6 +184,7 @@ func newKcpClientConn(client ziface.IClient, conn *kcp.UDPSession) ziface.IConne
 	c.onConnStart = client.GetOnConnStart()
 	c.onConnStop = client.GetOnConnStop()
 	c.msgHandler = client.GetMsgHandler()
+	c.ctx, c.cancel = context.WithCancel(context.Background())
 
 	return c
 }
@@ -280,7 +285,6 @@ func (c *KcpConnection) Start() {
 			zlog.Ins().ErrorF("Connection Start() error: %v", err)
 		}
 	}()
-	c.ctx, c.cancel = context.WithCancel(context.Background())
 
 	// Execute the hook method for processing business logic when creating a connection
 	// (按照用户传递进来的创建连接时需要处理的业务，执行钩子方法)
diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index 12babfb..6c59076 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -119,7 +119,6 @@ type WsConnection struct {
 func newWebsocketConn(server ziface.IServer, conn *websocket.Conn, connID uint64, r *http.Request) ziface.IConnection {
 	// Initialize Conn properties (初始化Conn属性)
 	c := &WsConnection{
-		ctx:         context.WithValue(context.Background(), WsConnectionHttpReqCtxKey{}, r.Context()), // websocketAuth可以在上下文中传递特殊的参数或信息;比如鉴权后，设置一些用户信息或房间id
 		conn:        conn,
 		connID:      connID,
 		connIdStr:   strconv.FormatUint(connID, 10),
@@ -142,6 +141,11 @@ func newWebsocketConn(server ziface.IServer, conn *websocket.Conn, connID uint64
 	c.onConnStop = server.GetOnConnStop()
 	c.msgHandler = server.GetMsgHandler()
 
+	// The context exists before anyone can get hold of the connection
+	// (在连接可以被获取到之前先创建好上下文)
+	// websocketAuth可以在上下文中传递特殊的参数或信息;比如鉴权后，设置一些用户信息或房间id
+	c.ctx, c.cancel = context.WithCancel(context.WithValue(context.Background(), WsConnectionHttpReqCtxKey{}, r.Context()))
+
 	// Bind the current Connection to the Server's ConnManager (将当前的Connection与Server的ConnManager绑定)
 	c.connManager = server.GetConnMgr()
 
@@ -176,6 +180,7 @@ func newWsClientConn(client ziface.IClient, conn *websocket.Conn) ziface.IConnec
 	c.onConnStart = client.GetOnConnStart()
 	c.onConnStop = client.GetOnConnStop()
 	c.msgHandler = client.GetMsgHandler()
+	c.ctx, c.cancel = context.WithCancel(context.Background())
 
 	return c
 }
@@ -274,11 +279,6 @@ func (c *WsConnection) StartReader() {
 // Start starts the connection and makes it work.
 // (Start 启动连接，让当前连接开始工作)
 func (c *WsConnection) Start() {
-	ctx := c.ctx
-	if ctx == nil {
-		ctx = context.Background()
-	}
-	c.ctx, c.cancel = context.WithCancel(ctx)
 	// Execute the hook method according to the business needs of creating the connection passed in by the user.
 	// (按照用户传递进来的创建连接时需要处理的业务，执行钩子方法)
 	c.callOnConnStart()
-- 
2.43.0


From 6852913e0d6e6de9c7d56127b91eaa3ebdf6c7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:40 +0000
Subject: [PATCH 07/44] fix: create the TCP send queue once and never close it
 under its senders

Two first buffered sends could leave the second one with a nil channel, and a
send that noticed the cancelled context closed the channel, which panics when
a second sender does the same or is about to send.
---
 znet/connection.go | 55 +++++++++++++++++++---------------------------
 1 file changed, 23 insertions(+), 32 deletions(-)

diff --git a/znet/connection.go b/znet/connection.go
index 6868dde..4c4c4c3 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -8,7 +8,6 @@ import (
 	"net"
 	"strconv"
 	"sync"
-	"sync/atomic"
 	"time"
 
 	"github.com/aceld/zinx/zconf"
@@ -59,9 +58,9 @@ type Connection struct {
 	// (有缓冲管道，用于读、写两个goroutine之间的消息通信)
 	msgBuffChan chan []byte
 
-	// Go StartWriter Flag
-	// (开始初始化写协程标志)
-	startWriterFlag int32
+	// Creates msgBuffChan and starts the writer once
+	// (只初始化一次写管道和写协程)
+	startWriterOnce sync.Once
 
 	// Connection properties
 	// (连接属性)
@@ -124,16 +123,15 @@ func newServerConn(server ziface.IServer, conn net.Conn, connID uint64) ziface.I
 
 	// Initialize Conn properties
 	c := &Connection{
-		conn:            conn,
-		bufWriter:       bufio.NewWriterSize(conn, 16*1024),
-		connID:          connID,
-		connIdStr:       strconv.FormatUint(connID, 10),
-		startWriterFlag: 0,
-		msgBuffChan:     nil,
-		property:        nil,
-		name:            server.ServerName(),
-		localAddr:       conn.LocalAddr().String(),
-		remoteAddr:      conn.RemoteAddr().String(),
+		conn:        conn,
+		bufWriter:   bufio.NewWriterSize(conn, 16*1024),
+		connID:      connID,
+		connIdStr:   strconv.FormatUint(connID, 10),
+		msgBuffChan: nil,
+		property:    nil,
+		name:        server.ServerName(),
+		localAddr:   conn.LocalAddr().String(),
+		remoteAddr:  conn.RemoteAddr().String(),
 	}
 
 	lengthField := server.GetLengthField()
@@ -166,16 +164,15 @@ func newServerConn(server ziface.IServer, conn net.Conn, connID uint64) ziface.I
 // (创建一个Client服务端特性的连接的方法)
 func newClientConn(client ziface.IClient, conn net.Conn) ziface.IConnection {
 	c := &Connection{
-		conn:            conn,
-		bufWriter:       bufio.NewWriterSize(conn, 16*1024),
-		connID:          0,  // client ignore
-		connIdStr:       "", // client ignore
-		startWriterFlag: 0,
-		msgBuffChan:     nil,
-		property:        nil,
-		name:            client.GetName(),
-		localAddr:       conn.LocalAddr().String(),
-		remoteAddr:      conn.RemoteAddr().String(),
+		conn:        conn,
+		bufWriter:   bufio.NewWriterSize(conn, 16*1024),
+		connID:      0,  // client ignore
+		connIdStr:   "", // client ignore
+		msgBuffChan: nil,
+		property:    nil,
+		name:        client.GetName(),
+		localAddr:   conn.LocalAddr().String(),
+		remoteAddr:  conn.RemoteAddr().String(),
 	}
 
 	lengthField := client.GetLengthField()
@@ -400,14 +397,14 @@ func (c *Connection) SendBuf(data []byte) error {
 
 func (c *Connection) SendToQueue(data []byte) error {
 
-	if c.msgBuffChan == nil && c.setStartWriterFlag() {
+	c.startWriterOnce.Do(func() {
 		c.msgBuffChan = make(chan []byte, zconf.GlobalObject.MaxMsgChanLen)
 		// Start a Goroutine to write data back to the client
 		// This method only reads data from the MsgBuffChan without allocating memory or starting a Goroutine
 		// (开启用于写回客户端数据流程的Goroutine
 		// 此方法只读取MsgBuffChan中的数据没调用SendBuffMsg可以分配内存和启用协程)
 		go c.StartWriter()
-	}
+	})
 
 	idleTimeout := time.NewTimer(5 * time.Millisecond)
 	defer idleTimeout.Stop()
@@ -424,8 +421,6 @@ func (c *Connection) SendToQueue(data []byte) error {
 	// Send timeout
 	select {
 	case <-c.ctx.Done():
-		// Close all channels associated with the connection
-		close(c.msgBuffChan)
 		return errors.New("connection closed when send buff msg")
 	case <-idleTimeout.C:
 		return errors.New("send buff msg timeout")
@@ -582,10 +577,6 @@ func (c *Connection) isClosed() bool {
 	return c.ctx == nil || c.ctx.Err() != nil
 }
 
-func (c *Connection) setStartWriterFlag() bool {
-	return atomic.CompareAndSwapInt32(&c.startWriterFlag, 0, 1)
-}
-
 func (s *Connection) AddCloseCallback(handler, key interface{}, f func()) {
 	if s.isClosed() {
 		return
-- 
2.43.0


From 0789d3455ba58507c14427f4299d9e8ce6799870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:47 +0000
Subject: [PATCH 08/44] fix: keep buffered TCP messages whole when the write
 buffer fills up

The buffered writer split a message at its 16 KiB boundary, and a concurrent
SendMsg could put its frame between the two halves.
---
 znet/connection.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/znet/connection.go b/znet/connection.go
index 4c4c4c3..2033a19 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -387,6 +387,14 @@ func (c *Connection) SendBuf(data []byte) error {
 	if c.isClosed() == true {
 		return errors.New("connection closed when send msg")
 	}
+	// A message must reach the socket in one write, otherwise a direct send can end up in the middle of it
+	// (一个消息必须一次性写入socket，否则可能被直接发送的消息从中间打断)
+	if len(data) > c.bufWriter.Available() {
+		if err := c.bufWriter.Flush(); err != nil {
+			zlog.Ins().ErrorF("SendMsg flush err = %+v", err)
+			return err
+		}
+	}
 	_, err := c.bufWriter.Write(data)
 	if err != nil {
 		zlog.Ins().ErrorF("SendMsg err data = %+v, err = %+v", data, err)
-- 
2.43.0


From fef04779bce11d3030d61fd2f04c4ee721e003c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:53 +0000
Subject: [PATCH 09/44] fix: create the KCP send queue once and never close it
 under its senders

Two first buffered sends could each create a channel, losing a message, and
teardown closed the channel while SendBuffMsg was about to send on it.
---
 znet/kcp_connection.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index eeb3e43..35ed3b6 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -60,6 +60,10 @@ type KcpConnection struct {
 	// (用户收发消息的Lock)
 	msgLock sync.RWMutex
 
+	// Creates msgBuffChan and starts the writer once
+	// (只初始化一次写管道和写协程)
+	startWriterOnce sync.Once
+
 	// Connection properties
 	// (连接属性)
 	property map[string]interface{}
@@ -372,14 +376,14 @@ func (c *KcpConnection) SendToQueue(data []byte) error {
 	c.msgLock.RLock()
 	defer c.msgLock.RUnlock()
 
-	if c.msgBuffChan == nil {
+	c.startWriterOnce.Do(func() {
 		c.msgBuffChan = make(chan []byte, zconf.GlobalObject.MaxMsgChanLen)
 		// Start a Goroutine to write data back to the client
 		// This method only reads data from the MsgBuffChan without allocating memory or starting a Goroutine
 		// (开启用于写回客户端数据流程的Goroutine
 		// 此方法只读取MsgBuffChan中的数据没调用SendBuffMsg可以分配内存和启用协程)
 		go c.StartWriter()
-	}
+	})
 
 	idleTimeout := time.NewTimer(5 * time.Millisecond)
 	defer idleTimeout.Stop()
@@ -428,14 +432,14 @@ func (c *KcpConnection) SendBuffMsg(msgID uint32, data []byte) error {
 	if c.isClosed() {
 		return errors.New("connection closed when send buff msg")
 	}
-	if c.msgBuffChan == nil {
+	c.startWriterOnce.Do(func() {
 		c.msgBuffChan = make(chan []byte, zconf.GlobalObject.MaxMsgChanLen)
 		// Start a Goroutine to write data back to the client
 		// This method only reads data from the MsgBuffChan without allocating memory or starting a Goroutine
 		// (开启用于写回客户端数据流程的Goroutine
 		// 此方法只读取MsgBuffChan中的数据没调用SendBuffMsg可以分配内存和启用协程)
 		go c.StartWriter()
-	}
+	})
 
 	idleTimeout := time.NewTimer(5 * time.Millisecond)
 	defer idleTimeout.Stop()
@@ -518,11 +522,6 @@ func (c *KcpConnection) finalizer() {
 		c.connManager.Remove(c)
 	}
 
-	// Close all channels associated with the connection
-	if c.msgBuffChan != nil {
-		close(c.msgBuffChan)
-	}
-
 	go func() {
 		defer func() {
 			if err := recover(); err != nil {
-- 
2.43.0


From dc24ef07c8587c4a46592d9fee48ff5d629a4a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:00 +0000
Subject: [PATCH 10/44] fix: recover panics in the WebSocket reader as the
 other transports do

---
 znet/ws_connection.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index 6c59076..ae822bc 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -216,6 +216,11 @@ func (c *WsConnection) StartReader() {
 	zlog.Ins().InfoF("[Reader Goroutine is running]")
 	defer zlog.Ins().InfoF("%s [conn Reader exit!]", c.RemoteAddr().String())
 	defer c.Stop()
+	defer func() {
+		if err := recover(); err != nil {
+			zlog.Ins().ErrorF("connID=%d, panic err=%v", c.GetConnID(), err)
+		}
+	}()
 
 	// Create a pack-unpack object. (创建拆包解包的对象)
 	for {
-- 
2.43.0


From d2f2e17137ab30f53cee3ac071fe987beaedc01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:07 +0000
Subject: [PATCH 11/44] fix: do not wait for the heartbeat goroutine when
 stopping it

Teardown of WebSocket and KCP connections stops the checker while holding the
message lock that the checker's own send waits for.
---
 znet/heartbeat.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/znet/heartbeat.go b/znet/heartbeat.go
index b625b60..9575157 100644
--- a/znet/heartbeat.go
+++ b/znet/heartbeat.go
@@ -55,7 +55,7 @@ func notAliveDefaultFunc(conn ziface.IConnection) {
 func NewHeartbeatChecker(interval time.Duration) ziface.IHeartbeatChecker {
 	heartbeat := &HeartbeatChecker{
 		interval: interval,
-		quitChan: make(chan bool),
+		quitChan: make(chan bool, 1),
 
 		// Use default heartbeat message generation function and remote connection not alive handling method
 		// (均使用默认的心跳消息生成函数和远程连接不存活时的处理方法)
@@ -121,7 +121,12 @@ func (h *HeartbeatChecker) Start() {
 
 func (h *HeartbeatChecker) Stop() {
 	zlog.Ins().InfoF("heartbeat checker stop, connID=%+v", h.conn.GetConnID())
-	h.quitChan <- true
+	// Never wait for the checker: it may be inside a send that needs the caller's lock
+	// (不能等待检测协程，它可能正阻塞在需要调用者持有的锁的发送中)
+	select {
+	case h.quitChan <- true:
+	default:
+	}
 }
 
 func (h *HeartbeatChecker) SendHeartBeatMsg() error {
@@ -167,7 +172,7 @@ func (h *HeartbeatChecker) Clone() ziface.IHeartbeatChecker {
 
 	heartbeat := &HeartbeatChecker{
 		interval:         h.interval,
-		quitChan:         make(chan bool),
+		quitChan:         make(chan bool, 1),
 		beatFunc:         h.beatFunc,
 		makeMsg:          h.makeMsg,
 		onRemoteNotAlive: h.onRemoteNotAlive,
-- 
2.43.0


From fb1f283c27abd82a2be562bc4dba574766cd869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:14 +0000
Subject: [PATCH 12/44] fix: close the socket before waiting for the send lock
 in teardown

A sender blocked in a write to a peer that does not read holds the lock, so
teardown of WebSocket and KCP connections never got to closing the socket.
---
 znet/kcp_connection.go | 7 ++++---
 znet/ws_connection.go  | 8 ++++----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index 35ed3b6..41ab9cb 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -506,6 +506,10 @@ func (c *KcpConnection) finalizer() {
 	//(如果用户注册了该连接的	关闭回调业务，那么在此刻应该显示调用)
 	c.callOnConnStop()
 
+	// Close the socket first: a sender stuck in a write holds the lock until the socket is closed
+	// (先关闭socket，阻塞在写操作中的发送者会一直持有锁)
+	_ = c.conn.Close()
+
 	c.msgLock.Lock()
 	defer c.msgLock.Unlock()
 
@@ -514,9 +518,6 @@ func (c *KcpConnection) finalizer() {
 		c.hc.Stop()
 	}
 
-	// Close the socket connection
-	_ = c.conn.Close()
-
 	// Remove the connection from the connection manager
 	if c.connManager != nil {
 		c.connManager.Remove(c)
diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index ae822bc..ffa2842 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -504,6 +504,10 @@ func (c *WsConnection) finalizer() {
 	// (如果用户注册了该连接的	关闭回调业务，那么在此刻应该显示调用)
 	c.callOnConnStop()
 
+	// Close the socket first: a sender stuck in a write holds the lock until the socket is closed
+	// (先关闭socket，阻塞在写操作中的发送者会一直持有锁)
+	_ = c.conn.Close()
+
 	c.msgLock.Lock()
 	defer c.msgLock.Unlock()
 
@@ -519,10 +523,6 @@ func (c *WsConnection) finalizer() {
 		c.hc.Stop()
 	}
 
-	// Close the socket connection.
-	// (关闭socket连接)
-	_ = c.conn.Close()
-
 	// Remove the connection from the connection manager.
 	// (将连接从连接管理器中删除)
 	if c.connManager != nil {
-- 
2.43.0


From e2b072a507cac4be2100d0f9f50f8083babd2369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:47 +0000
Subject: [PATCH 13/44] fix: keep checking liveness while a heartbeat is stuck
 in a send

The checker sent its heartbeat itself, so with a peer that neither reads nor
sends, and a full socket, it blocked and never noticed that the peer is gone.
---
 znet/heartbeat.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/znet/heartbeat.go b/znet/heartbeat.go
index 9575157..d1a63f2 100644
--- a/znet/heartbeat.go
+++ b/znet/heartbeat.go
@@ -2,6 +2,7 @@ package znet
 
 import (
 	"fmt"
+	"sync/atomic"
 	"time"
 
 	"github.com/aceld/zinx/ziface"
@@ -22,6 +23,8 @@ type HeartbeatChecker struct {
 	conn         ziface.IConnection     // Bound connection(绑定的连接)
 
 	beatFunc ziface.HeartBeatFunc // // User-defined heartbeat sending function(用户自定义心跳发送函数)
+
+	beating int32 // 1 while a heartbeat is being sent(正在发送心跳时为1)
 }
 
 /*
@@ -142,20 +145,31 @@ func (h *HeartbeatChecker) SendHeartBeatMsg() error {
 	return nil
 }
 
-func (h *HeartbeatChecker) check() (err error) {
+func (h *HeartbeatChecker) check() {
 
 	if h.conn == nil {
-		return nil
+		return
 	}
 
 	if !h.conn.IsAlive() {
 		h.onRemoteNotAlive(h.conn)
+		return
+	}
+
+	// A heartbeat stuck behind a peer that does not read must not keep the next checks from noticing it
+	// (对端不读数据时心跳发送会阻塞，不能影响后续的存活检测)
+	if atomic.CompareAndSwapInt32(&h.beating, 0, 1) {
+		go h.beat()
+	}
+}
+
+func (h *HeartbeatChecker) beat() (err error) {
+	defer atomic.StoreInt32(&h.beating, 0)
+
+	if h.beatFunc != nil {
+		err = h.beatFunc(h.conn)
 	} else {
-		if h.beatFunc != nil {
-			err = h.beatFunc(h.conn)
-		} else {
-			err = h.SendHeartBeatMsg()
-		}
+		err = h.SendHeartBeatMsg()
 	}
 
 	return err
-- 
2.43.0


From 014c83796668c871cd76a90b419f111ee17c3d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:47 +0000
Subject: [PATCH 14/44] fix: note the connection's activity before its
 heartbeat checker starts

A check that ran first saw no activity at all and ended the connection.
---
 znet/connection.go     | 2 +-
 znet/kcp_connection.go | 2 +-
 znet/ws_connection.go  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/znet/connection.go b/znet/connection.go
index 2033a19..3eef408 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -304,8 +304,8 @@ func (c *Connection) Start() {
 
 	// Start heartbeating detection
 	if c.hc != nil {
-		c.hc.Start()
 		c.updateActivity()
+		c.hc.Start()
 	}
 
 	// 占用workerid
diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index 41ab9cb..87c0bd3 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -296,8 +296,8 @@ func (c *KcpConnection) Start() {
 
 	// Start heartbeating detection
 	if c.hc != nil {
-		c.hc.Start()
 		c.updateActivity()
+		c.hc.Start()
 	}
 
 	// 占用workerid
diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index ffa2842..2da5fd5 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -291,8 +291,8 @@ func (c *WsConnection) Start() {
 	// Start the heartbeat check
 	// (启动心跳检测)
 	if c.hc != nil {
-		c.hc.Start()
 		c.updateActivity()
+		c.hc.Start()
 	}
 
 	// 占用workerid
-- 
2.43.0


From e46494368a362cbd94aa0576601843b61719515d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:11 +0000
Subject: [PATCH 15/44] fix: return a connection's worker before it leaves the
 connection manager

At the connection limit a new connection could be accepted between the two
steps, found no free worker and shared the worker of a live connection.
---
 znet/connection.go     | 7 ++++---
 znet/kcp_connection.go | 7 ++++---
 znet/ws_connection.go  | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/znet/connection.go b/znet/connection.go
index 3eef408..9c3b1d1 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -318,9 +318,6 @@ func (c *Connection) Start() {
 	select {
 	case <-c.ctx.Done():
 		c.finalizer()
-
-		// 归还workerid
-		freeWorker(c)
 		return
 	}
 }
@@ -515,6 +512,10 @@ func (c *Connection) finalizer() {
 	// Close the socket connection
 	_ = c.conn.Close()
 
+	// Give the worker back before the connection stops counting, so that the next one finds it
+	// 归还workerid，必须在连接移出连接管理器之前
+	freeWorker(c)
+
 	// Remove the connection from the connection manager
 	if c.connManager != nil {
 		c.connManager.Remove(c)
diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index 87c0bd3..3b43292 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -310,9 +310,6 @@ func (c *KcpConnection) Start() {
 	select {
 	case <-c.ctx.Done():
 		c.finalizer()
-
-		// 归还workerid
-		freeWorker(c)
 		return
 	}
 }
@@ -518,6 +515,10 @@ func (c *KcpConnection) finalizer() {
 		c.hc.Stop()
 	}
 
+	// Give the worker back before the connection stops counting, so that the next one finds it
+	// 归还workerid，必须在连接移出连接管理器之前
+	freeWorker(c)
+
 	// Remove the connection from the connection manager
 	if c.connManager != nil {
 		c.connManager.Remove(c)
diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index 2da5fd5..da679fa 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -305,9 +305,6 @@ func (c *WsConnection) Start() {
 	select {
 	case <-c.ctx.Done():
 		c.finalizer()
-
-		// 归还workerid
-		freeWorker(c)
 		return
 	}
 }
@@ -523,6 +520,10 @@ func (c *WsConnection) finalizer() {
 		c.hc.Stop()
 	}
 
+	// Give the worker back before the connection stops counting, so that the next one finds it
+	// 归还workerid，必须在连接移出连接管理器之前
+	freeWorker(c)
+
 	// Remove the connection from the connection manager.
 	// (将连接从连接管理器中删除)
 	if c.connManager != nil {
-- 
2.43.0


From 3dc6075077239d8931b8efb71f64efa7c73f516c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:36 +0000
Subject: [PATCH 16/44] fix: keep the connection limit when connections arrive
 at the same time

---
 znet/server.go | 46 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/znet/server.go b/znet/server.go
index 6152000..3e49e7e 100644
--- a/znet/server.go
+++ b/znet/server.go
@@ -9,6 +9,7 @@ import (
 	"net/http"
 	"os"
 	"os/signal"
+	"sync"
 	"sync/atomic"
 	"syscall"
 	"time"
@@ -89,6 +90,10 @@ type Server struct {
 
 	// connection id
 	cID uint64
+
+	// Guards the connection limit while a connection is registered
+	// (注册连接时保护最大连接数限制)
+	admitLock sync.Mutex
 }
 
 type KcpConfig struct {
@@ -235,6 +240,24 @@ func (s *Server) StartConn(conn ziface.IConnection) {
 	conn.Start()
 }
 
+// admit registers the connection made by newConn. The listeners and the concurrent WebSocket requests must
+// not all take the last place, so when the server is full it waits for a place, or returns nil if !wait.
+// (注册新连接；多个监听与并发的WebSocket请求不能同时占用最后一个名额，连接已满时等待或者返回nil)
+func (s *Server) admit(wait bool, newConn func(newCid uint64) ziface.IConnection) ziface.IConnection {
+	for {
+		s.admitLock.Lock()
+		if s.ConnMgr.Len() < zconf.GlobalObject.MaxConn {
+			defer s.admitLock.Unlock()
+			return newConn(atomic.AddUint64(&s.cID, 1))
+		}
+		s.admitLock.Unlock()
+		if !wait {
+			return nil
+		}
+		AcceptDelay.Delay()
+	}
+}
+
 func (s *Server) ListenTcpConn() {
 	zlog.Ins().InfoF("[START] TCP Server name: %s,listener at IP: %s, Port %d is starting", s.Name, s.IP, s.Port)
 	// 1. Get a TCP address
@@ -297,8 +320,9 @@ func (s *Server) ListenTcpConn() {
 
 			// 3.4 Handle the business method for this new connection request. At this time, the handler and conn should be bound.
 			// (处理该新连接请求的 业务 方法， 此时应该有 handler 和 conn是绑定的)
-			newCid := atomic.AddUint64(&s.cID, 1)
-			dealConn := newServerConn(s, conn, newCid)
+			dealConn := s.admit(true, func(newCid uint64) ziface.IConnection {
+				return newServerConn(s, conn, newCid)
+			})
 
 			go s.StartConn(dealConn)
 
@@ -351,8 +375,16 @@ func (s *Server) ListenWebsocketConn() {
 		AcceptDelay.Reset()
 		// 5. Handle the business logic of the new connection, which should already be bound to a handler and conn
 		// 5. 处理该新连接请求的 业务 方法， 此时应该有 handler 和 conn是绑定的
-		newCid := atomic.AddUint64(&s.cID, 1)
-		wsConn := newWebsocketConn(s, conn, newCid, r)
+		wsConn := s.admit(false, func(newCid uint64) ziface.IConnection {
+			return newWebsocketConn(s, conn, newCid, r)
+		})
+		if wsConn == nil {
+			// The last place was taken while this connection was being upgraded
+			// (升级期间最后一个名额已被占用)
+			zlog.Ins().InfoF("Exceeded the maxConnNum:%d", zconf.GlobalObject.MaxConn)
+			_ = conn.Close()
+			return
+		}
 		go s.StartConn(wsConn)
 
 	})
@@ -396,15 +428,15 @@ func (s *Server) ListenKcpConn() {
 
 			// 3.4 Handle the business method for this new connection request. At this time, the handler and conn should be bound.
 			// (处理该新连接请求的 业务 方法， 此时应该有 handler 和 conn 是绑定的)
-			newCid := atomic.AddUint64(&s.cID, 1)
-
 			kcpConn := conn.(*kcp.UDPSession)
 			kcpConn.SetACKNoDelay(s.kcpConfig.KcpACKNoDelay)
 			kcpConn.SetStreamMode(s.kcpConfig.KcpStreamMode)
 			kcpConn.SetNoDelay(s.kcpConfig.KcpNoDelay, s.kcpConfig.KcpInterval, s.kcpConfig.KcpResend, s.kcpConfig.KcpNc)
 			kcpConn.SetWindowSize(s.kcpConfig.KcpSendWindow, s.kcpConfig.KcpRecvWindow)
 
-			dealConn := newKcpServerConn(s, kcpConn, newCid)
+			dealConn := s.admit(true, func(newCid uint64) ziface.IConnection {
+				return newKcpServerConn(s, kcpConn, newCid)
+			})
 
 			go s.StartConn(dealConn)
 		}
-- 
2.43.0


From 8394d419381bbd61a2c37c8d81a3921bda3b1c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:46 +0000
Subject: [PATCH 17/44] fix: make Server.Stop close every listener and leave no
 connection behind

---
 znet/server.go | 58 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 10 deletions(-)

diff --git a/znet/server.go b/znet/server.go
index 3e49e7e..c7a0735 100644
--- a/znet/server.go
+++ b/znet/server.go
@@ -240,12 +240,28 @@ func (s *Server) StartConn(conn ziface.IConnection) {
 	conn.Start()
 }
 
+// stopped tells whether Stop has been called
+// (服务是否已经停止)
+func (s *Server) stopped() bool {
+	select {
+	case <-s.exitChan:
+		return true
+	default:
+		return false
+	}
+}
+
 // admit registers the connection made by newConn. The listeners and the concurrent WebSocket requests must
 // not all take the last place, so when the server is full it waits for a place, or returns nil if !wait.
-// (注册新连接；多个监听与并发的WebSocket请求不能同时占用最后一个名额，连接已满时等待或者返回nil)
+// It returns nil once the server is stopped: Stop would not see the connection any more.
+// (注册新连接；多个监听与并发的WebSocket请求不能同时占用最后一个名额，连接已满时等待或者返回nil，服务停止后返回nil)
 func (s *Server) admit(wait bool, newConn func(newCid uint64) ziface.IConnection) ziface.IConnection {
 	for {
 		s.admitLock.Lock()
+		if s.stopped() {
+			s.admitLock.Unlock()
+			return nil
+		}
 		if s.ConnMgr.Len() < zconf.GlobalObject.MaxConn {
 			defer s.admitLock.Unlock()
 			return newConn(atomic.AddUint64(&s.cID, 1))
@@ -294,7 +310,7 @@ func (s *Server) ListenTcpConn() {
 
 	// 3. Start server network connection business
 	go func() {
-		for {
+		for !s.stopped() {
 			// 3.1 Set the maximum connection control for the server. If it exceeds the maximum connection, wait.
 			// (设置服务器最大连接控制,如果超过最大连接，则等待)
 			if s.ConnMgr.Len() >= zconf.GlobalObject.MaxConn {
@@ -323,6 +339,10 @@ func (s *Server) ListenTcpConn() {
 			dealConn := s.admit(true, func(newCid uint64) ziface.IConnection {
 				return newServerConn(s, conn, newCid)
 			})
+			if dealConn == nil {
+				_ = conn.Close()
+				return
+			}
 
 			go s.StartConn(dealConn)
 
@@ -379,9 +399,9 @@ func (s *Server) ListenWebsocketConn() {
 			return newWebsocketConn(s, conn, newCid, r)
 		})
 		if wsConn == nil {
-			// The last place was taken while this connection was being upgraded
-			// (升级期间最后一个名额已被占用)
-			zlog.Ins().InfoF("Exceeded the maxConnNum:%d", zconf.GlobalObject.MaxConn)
+			// The last place was taken, or the server stopped, while this connection was being upgraded
+			// (升级期间最后一个名额已被占用或者服务已停止)
+			zlog.Ins().InfoF("Exceeded the maxConnNum:%d or server stopped", zconf.GlobalObject.MaxConn)
 			_ = conn.Close()
 			return
 		}
@@ -389,8 +409,16 @@ func (s *Server) ListenWebsocketConn() {
 
 	})
 
-	err := http.ListenAndServe(fmt.Sprintf("%s:%d", s.IP, s.WsPort), nil)
-	if err != nil {
+	httpServer := &http.Server{Addr: fmt.Sprintf("%s:%d", s.IP, s.WsPort)}
+	go func() {
+		<-s.exitChan
+		if err := httpServer.Close(); err != nil {
+			zlog.Ins().ErrorF("websocket listener close err: %v", err)
+		}
+	}()
+
+	err := httpServer.ListenAndServe()
+	if err != nil && err != http.ErrServerClosed {
 		panic(err)
 	}
 }
@@ -407,7 +435,7 @@ func (s *Server) ListenKcpConn() {
 	zlog.Ins().InfoF("[START] KCP server listening at IP: %s, Port %d, Addr %s", s.IP, s.KcpPort, listener.Addr().String())
 	// 2. Start server network connection business
 	go func() {
-		for {
+		for !s.stopped() {
 			// 2.1 Set the maximum connection control for the server. If it exceeds the maximum connection, wait.
 			// (设置服务器最大连接控制,如果超过最大连接，则等待)
 			if s.ConnMgr.Len() >= zconf.GlobalObject.MaxConn {
@@ -437,6 +465,10 @@ func (s *Server) ListenKcpConn() {
 			dealConn := s.admit(true, func(newCid uint64) ziface.IConnection {
 				return newKcpServerConn(s, kcpConn, newCid)
 			})
+			if dealConn == nil {
+				_ = kcpConn.Close()
+				return
+			}
 
 			go s.StartConn(dealConn)
 		}
@@ -486,9 +518,15 @@ func (s *Server) Stop() {
 
 	// Clear other connection information or other information that needs to be cleaned up
 	// (将其他需要清理的连接信息或者其他信息 也要一并停止或者清理)
+	// Tell all listeners first: no connection is registered any more after that
+	// (先通知所有监听退出，此后不会再有新连接注册)
+	s.admitLock.Lock()
+	if s.exitChan != nil && !s.stopped() {
+		close(s.exitChan)
+	}
+	s.admitLock.Unlock()
+
 	s.ConnMgr.ClearConn()
-	s.exitChan <- struct{}{}
-	close(s.exitChan)
 }
 
 // Serve runs the server (运行服务)
-- 
2.43.0


From 88d28c75004f4b89b940339099cbd3d94a9a885c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:17 +0000
Subject: [PATCH 18/44] fix: let a client stop, fail and restart at any moment

---
 znet/client.go | 102 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 81 insertions(+), 21 deletions(-)

diff --git a/znet/client.go b/znet/client.go
index 123857a..c9349cd 100644
--- a/znet/client.go
+++ b/znet/client.go
@@ -27,7 +27,7 @@ type Client struct {
 	version string
 	// Connection instance 连接实例
 	conn ziface.IConnection
-	// Connection instance 连接实例的锁，保证可见性
+	// Protects conn, exitChan, ErrChan and stopped 连接实例等运行状态的锁，保证可见性
 	connMux sync.Mutex
 	// Hook function called on connection start 该client的连接创建时Hook函数
 	onConnStart func(conn ziface.IConnection)
@@ -48,8 +48,10 @@ type Client struct {
 	useTLS bool
 	// For websocket connections
 	dialer *websocket.Dialer
-	// Error channel
+	// Error channel, closed by Stop
 	ErrChan chan error
+	// The client has been stopped and ErrChan is closed 客户端已停止，ErrChan已关闭
+	stopped bool
 }
 
 func NewClient(ip string, port int, opts ...ClientOption) ziface.IClient {
@@ -65,7 +67,7 @@ func NewClient(ip string, port int, opts ...ClientOption) ziface.IClient {
 		packet:     zpack.Factory().NewPack(ziface.ZinxDataPack), // Default to using Zinx's TLV packet format(默认使用zinx的TLV封包方式)
 		decoder:    zdecoder.NewTLVDecoder(),                     // Default to using Zinx's TLV decoder(默认使用zinx的TLV解码器)
 		version:    "tcp",
-		ErrChan:    make(chan error),
+		ErrChan:    make(chan error, 1),
 	}
 
 	// Apply Option settings (应用Option设置)
@@ -90,7 +92,7 @@ func NewWsClient(ip string, port int, opts ...ClientOption) ziface.IClient {
 		decoder:    zdecoder.NewTLVDecoder(),                     // Default to using Zinx's TLV decoder(默认使用zinx的TLV解码器)
 		version:    "websocket",
 		dialer:     &websocket.Dialer{},
-		ErrChan:    make(chan error),
+		ErrChan:    make(chan error, 1),
 	}
 
 	// Apply Option settings (应用Option设置)
@@ -113,7 +115,24 @@ func NewTLSClient(ip string, port int, opts ...ClientOption) ziface.IClient {
 // Start starts the client, sends requests and establishes a connection.
 // (重新启动客户端，发送请求且建立连接)
 func (c *Client) Restart() {
-	c.exitChan = make(chan struct{})
+	exitChan := make(chan struct{})
+
+	c.connMux.Lock()
+	oldExit, oldConn := c.exitChan, c.conn
+	c.exitChan, c.conn = exitChan, nil
+	if c.stopped {
+		c.stopped = false
+		c.ErrChan = make(chan error, 1)
+	}
+	c.connMux.Unlock()
+
+	// End what is left of the previous run (结束上一次运行遗留的协程和连接)
+	if oldExit != nil {
+		close(oldExit)
+	}
+	if oldConn != nil {
+		oldConn.Stop()
+	}
 
 	go func() {
 
@@ -125,6 +144,7 @@ func (c *Client) Restart() {
 
 		// Create a raw socket and get net.Conn (创建原始Socket，得到net.Conn)
 		var connect ziface.IConnection
+		var rawConn interface{ Close() error }
 		switch c.version {
 		case "websocket":
 			wsAddr := fmt.Sprintf("ws://%s:%d", c.Ip, c.Port)
@@ -137,11 +157,12 @@ func (c *Client) Restart() {
 			if err != nil {
 				// connection failed
 				zlog.Ins().ErrorF("WsClient connect to server failed, err:%v", err)
-				c.ErrChan <- err
+				c.reportErr(exitChan, err)
 				return
 			}
 			// Create Connection object
 			connect = newWsClientConn(c, wsConn)
+			rawConn = wsConn
 
 		default:
 			var conn net.Conn
@@ -157,7 +178,7 @@ func (c *Client) Restart() {
 				conn, err = tls.Dial("tcp", fmt.Sprintf("%v:%v", net.ParseIP(c.Ip), c.Port), config)
 				if err != nil {
 					zlog.Ins().ErrorF("tls client connect to server failed, err:%v", err)
-					c.ErrChan <- err
+					c.reportErr(exitChan, err)
 					return
 				}
 			} else {
@@ -165,30 +186,37 @@ func (c *Client) Restart() {
 				if err != nil {
 					// connection failed
 					zlog.Ins().ErrorF("client connect to server failed, err:%v", err)
-					c.ErrChan <- err
+					c.reportErr(exitChan, err)
 					return
 				}
 			}
 			// Create Connection object
 			connect = newClientConn(c, conn)
+			rawConn = conn
 		}
 
-		// Set connection to the client
-		c.setConn(connect)
-
-		zlog.Ins().InfoF("[START] Zinx Client LocalAddr: %s, RemoteAddr: %s\n", connect.LocalAddr(), connect.RemoteAddr())
 		// HeartBeat detection
 		if c.hc != nil {
-			// Bind connection and heartbeat detector after connection is successfully established
-			// (创建连接成功，绑定连接与心跳检测器)
-			c.hc.BindConn(connect)
+			// Bind connection and heartbeat detector after connection is successfully established,
+			// each connection has its own detector
+			// (创建连接成功，绑定连接与心跳检测器，每个连接有自己的检测器)
+			c.hc.Clone().BindConn(connect)
+		}
+
+		// Set connection to the client, unless it has been stopped in the meantime
+		// (将连接设置到客户端，除非客户端在此期间已停止)
+		if !c.setConn(exitChan, connect) {
+			_ = rawConn.Close()
+			return
 		}
 
+		zlog.Ins().InfoF("[START] Zinx Client LocalAddr: %s, RemoteAddr: %s\n", connect.LocalAddr(), connect.RemoteAddr())
+
 		// Start connection
 		go connect.Start()
 
 		select {
-		case <-c.exitChan:
+		case <-exitChan:
 			zlog.Ins().InfoF("client exit.")
 		}
 	}()
@@ -244,14 +272,23 @@ func (c *Client) StartHeartBeatWithOption(interval time.Duration, option *ziface
 }
 
 func (c *Client) Stop() {
-	con := c.Conn()
+	c.connMux.Lock()
+	if c.exitChan == nil {
+		// Not started, or stopped already (未启动或已停止)
+		c.connMux.Unlock()
+		return
+	}
+	con := c.conn
+	close(c.exitChan)
+	close(c.ErrChan)
+	c.exitChan = nil
+	c.stopped = true
+	c.connMux.Unlock()
+
 	if con != nil {
 		zlog.Ins().InfoF("[STOP] Zinx Client LocalAddr: %s, RemoteAddr: %s\n", con.LocalAddr(), con.RemoteAddr())
 		con.Stop()
 	}
-	c.exitChan <- struct{}{}
-	close(c.exitChan)
-	close(c.ErrChan)
 }
 
 func (c *Client) AddRouter(msgID uint32, router ziface.IRouter) {
@@ -264,10 +301,31 @@ func (c *Client) Conn() ziface.IConnection {
 	return c.conn
 }
 
-func (c *Client) setConn(con ziface.IConnection) {
+// setConn makes con the client's connection, if the run that exitChan belongs to still goes on
+// (如果exitChan所属的运行仍在继续，则设置客户端的连接)
+func (c *Client) setConn(exitChan chan struct{}, con ziface.IConnection) bool {
 	c.connMux.Lock()
 	defer c.connMux.Unlock()
+	if c.exitChan != exitChan {
+		return false
+	}
 	c.conn = con
+	return true
+}
+
+// reportErr hands the latest connection failure to the reader of the error channel, without waiting for one
+// (将最近一次连接失败交给错误通道的读者，不等待读者)
+func (c *Client) reportErr(exitChan chan struct{}, err error) {
+	c.connMux.Lock()
+	defer c.connMux.Unlock()
+	if c.exitChan != exitChan {
+		return
+	}
+	select {
+	case <-c.ErrChan: // drop an unread older one (丢弃未读的旧错误)
+	default:
+	}
+	c.ErrChan <- err
 }
 
 func (c *Client) SetOnConnStart(hookFunc func(ziface.IConnection)) {
@@ -313,6 +371,8 @@ func (c *Client) GetLengthField() *ziface.LengthField {
 }
 
 func (c *Client) GetErrChan() chan error {
+	c.connMux.Lock()
+	defer c.connMux.Unlock()
 	return c.ErrChan
 }
 
-- 
2.43.0


From 0cad4a0c3f0421b5bc1c0a42fb7a89b8eac88391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:57 +0000
Subject: [PATCH 19/44] fix: add the client's decoder to the interceptors only
 once

---
 znet/client.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/znet/client.go b/znet/client.go
index c9349cd..71ef9fb 100644
--- a/znet/client.go
+++ b/znet/client.go
@@ -52,6 +52,8 @@ type Client struct {
 	ErrChan chan error
 	// The client has been stopped and ErrChan is closed 客户端已停止，ErrChan已关闭
 	stopped bool
+	// The decoder has been added to the interceptors 解码器已添加到拦截器
+	decoding bool
 }
 
 func NewClient(ip string, port int, opts ...ClientOption) ziface.IClient {
@@ -226,8 +228,10 @@ func (c *Client) Restart() {
 // (启动客户端，发送请求且建立连接)
 func (c *Client) Start() {
 
-	// Add the decoder to the interceptor list (将解码器添加到拦截器)
-	if c.decoder != nil {
+	// Add the decoder to the interceptor list, once however often the client is started
+	// (将解码器添加到拦截器，无论启动多少次都只添加一次)
+	if c.decoder != nil && !c.decoding {
+		c.decoding = true
 		c.msgHandler.AddInterceptor(c.decoder)
 	}
 
-- 
2.43.0


From 6b5084d77cdfd0710e1d037806997c3e21b8ffa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:57 +0000
Subject: [PATCH 20/44] fix: run router-slice chains of more than 127 handlers

---
 znet/request.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/znet/request.go b/znet/request.go
index 6b6e474..82f6835 100644
--- a/znet/request.go
+++ b/znet/request.go
@@ -36,7 +36,7 @@ type Request struct {
 	needNext bool                   // whether to execute the next router function(是否需要执行下一个路由函数)
 	icResp   ziface.IcResp          // response data returned by the interceptors (拦截器返回数据)
 	handlers []ziface.RouterHandler // router function slice(路由函数切片)
-	index    int8                   // router function slice index(路由函数切片索引)
+	index    int                    // router function slice index(路由函数切片索引)
 	keys     map[string]interface{} // keys 路由处理时可能会存取的上下文信息
 }
 
@@ -213,7 +213,7 @@ func (r *Request) Call() {
 
 func (r *Request) Abort() {
 	if zconf.GlobalObject.RouterSlicesMode {
-		r.index = int8(len(r.handlers))
+		r.index = len(r.handlers)
 	} else {
 		r.stepLock.Lock()
 		r.steps = HANDLE_OVER
@@ -228,7 +228,7 @@ func (r *Request) BindRouterSlices(handlers []ziface.RouterHandler) {
 
 func (r *Request) RouterSlicesNext() {
 	r.index++
-	for r.index < int8(len(r.handlers)) {
+	for r.index < len(r.handlers) {
 		r.handlers[r.index](r)
 		r.index++
 	}
-- 
2.43.0


From 3dbf218cb7ab29f7d13efe49843fc3104bda7ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:57 +0000
Subject: [PATCH 21/44] fix: end the handler chain when RouterRecovery catches
 a panic

---
 znet/defaultrouterfunc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/znet/defaultrouterfunc.go b/znet/defaultrouterfunc.go
index 70b2ea8..68f5c38 100644
--- a/znet/defaultrouterfunc.go
+++ b/znet/defaultrouterfunc.go
@@ -36,6 +36,9 @@ func RouterRecovery(request ziface.IRequest) {
 			// Record the error
 			zlog.Ins().ErrorF("MsgId:%d Handler panic: info:%s err:%v", request.GetMsgID(), panicInfo, err)
 
+			// The handlers behind the one that panicked must not run (发生panic之后的处理函数不再执行)
+			request.Abort()
+
 			//fmt.Printf("MsgId:%d Handler panic: info:%s err:%v", request.GetMsgID(), panicInfo, err)
 
 			// Should return an error (应该回传一个错误的)
-- 
2.43.0


From 5e146d2938b6dd9fa4dacdac7aa28f1a7429861d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:05 +0000
Subject: [PATCH 22/44] fix: keep the decoded data and the response in a copied
 request

---
 znet/request.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/znet/request.go b/znet/request.go
index 82f6835..2f13549 100644
--- a/znet/request.go
+++ b/znet/request.go
@@ -120,14 +120,10 @@ func (r *Request) Copy() ziface.IRequest {
 	}
 
 	// 复制一份原本的 icResp
-	copyResp := []ziface.IcResp{r.icResp}
-	newIcResp := make([]ziface.IcResp, 0, 1)
-	copy(newIcResp, copyResp)
-	for _, v := range newIcResp {
-		newRequest.icResp = v
-	}
-	// 复制一份原本的 msg 信息
-	newRequest.msg = zpack.NewMessageByMsgId(r.msg.GetMsgID(), r.msg.GetDataLen(), r.msg.GetRawData())
+	newRequest.icResp = r.icResp
+	// 复制一份原本的 msg 信息, 包括解码后的数据和原始数据
+	newRequest.msg = zpack.NewMessageByMsgId(r.msg.GetMsgID(), r.msg.GetDataLen(), append([]byte(nil), r.msg.GetRawData()...))
+	newRequest.msg.SetData(append([]byte(nil), r.msg.GetData()...))
 
 	return newRequest
 }
-- 
2.43.0


From 12d58d502ee4e0101048f30baa22feb9f9457bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:51 +0000
Subject: [PATCH 23/44] fix: clear the response of a pooled request before it
 is used again

---
 znet/request.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/znet/request.go b/znet/request.go
index 2f13549..baf18f5 100644
--- a/znet/request.go
+++ b/znet/request.go
@@ -94,7 +94,9 @@ func (r *Request) Reset(conn ziface.IConnection, msg ziface.IMessage) {
 	r.needNext = true
 	r.index = -1
 	r.keys = nil
-
+	r.icResp = nil
+	r.router = nil
+	r.handlers = nil
 }
 
 // Copy 在执行路由函数的时候可能会出现需要再起一个协程的需求,但是 Request 对象由对象池管理后无法保证新协程中的 Request 参数一致
-- 
2.43.0


From 26689c64ee4f9e2b65869bc2adcf4300b0e478a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:51 +0000
Subject: [PATCH 24/44] fix: put only the pool's own requests back into the
 request pool

---
 znet/request.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/znet/request.go b/znet/request.go
index baf18f5..45e00fe 100644
--- a/znet/request.go
+++ b/znet/request.go
@@ -75,7 +75,10 @@ func GetRequest(conn ziface.IConnection, msg ziface.IMessage) ziface.IRequest {
 func PutRequest(request ziface.IRequest) {
 	// 判断是否开启了对象池模式
 	if zconf.GlobalObject.RequestPoolMode {
-		RequestPool.Put(request)
+		// 拦截器可能传入了自定义的 Request 类型, 只有 *Request 可以放回对象池
+		if r, ok := request.(*Request); ok {
+			RequestPool.Put(r)
+		}
 	}
 }
 
-- 
2.43.0


From 17102c60e42d4a3d56f063f9d2e1e91922977754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:51 +0000
Subject: [PATCH 25/44] fix: give handlers their own data when no decoder is
 set

---
 znet/connection.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/znet/connection.go b/znet/connection.go
index 9c3b1d1..b2aaabe 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -279,7 +279,9 @@ func (c *Connection) StartReader() {
 					c.msgHandler.Execute(req)
 				}
 			} else {
-				msg := zpack.NewMessage(uint32(n), buffer[0:n])
+				// The handler runs later, while the buffer is read into again
+				// (处理函数稍后执行，此时buffer会被再次写入)
+				msg := zpack.NewMessage(uint32(n), append([]byte(nil), buffer[0:n]...))
 				// Get the current client's Request data
 				// (得到当前客户端请求的Request数据)
 				req := GetRequest(c, msg)
-- 
2.43.0


From 2123e03ee355ca6ae302ecd3287184426f0c2050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:14 +0000
Subject: [PATCH 26/44] fix: show an asynchronous result to the callback it
 completes

---
 zasync_op/async_op_result.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/zasync_op/async_op_result.go b/zasync_op/async_op_result.go
index 27b8284..c5d8f29 100644
--- a/zasync_op/async_op_result.go
+++ b/zasync_op/async_op_result.go
@@ -20,9 +20,9 @@ type AsyncOpResult struct {
 	returnedObj interface{}
 	// Completion callback function(完成回调函数)
 	completeFunc func()
-	// Whether the return value has been set(是否已有返回值)
+	// Whether the return value has been set: 0 no, 1 being set, 2 set(是否已有返回值)
 	hasReturnedObj int32
-	// Whether the completion callback function has been set(是否已有回调函数)
+	// Whether the completion callback function has been set: 0 no, 1 being set, 2 set(是否已有回调函数)
 	hasCompleteFunc int32
 	// Whether the completion function has already been called(是否已经调用过完成函数)
 	completeFuncHasAlreadyBeenCalled int32 // Default value = 0, not yet called (默认值 = 0, 没被调用过)
@@ -37,6 +37,7 @@ func (aor *AsyncOpResult) GetReturnedObj() interface{} {
 func (aor *AsyncOpResult) SetReturnedObj(val interface{}) {
 	if atomic.CompareAndSwapInt32(&aor.hasReturnedObj, 0, 1) {
 		aor.returnedObj = val
+		atomic.StoreInt32(&aor.hasReturnedObj, 2)
 		// **** 防止未调用回调函数问题: 设置处理结果时，直接调用回调函数：1.回调函数未绑定，调用空；2.回调函数已绑定,立马调用 ****
 		// **** Prevent the problem of not calling the completion callback function:
 		// Call the callback function directly when setting the processing result:
@@ -50,20 +51,24 @@ func (aor *AsyncOpResult) SetReturnedObj(val interface{}) {
 func (aor *AsyncOpResult) OnComplete(val func()) {
 	if atomic.CompareAndSwapInt32(&aor.hasCompleteFunc, 0, 1) {
 		aor.completeFunc = val
+		atomic.StoreInt32(&aor.hasCompleteFunc, 2)
 
 		// **** 防止未调用回调函数问题:设置回调函数时，发现已经有处理结果了，直接调用 ****
 		// **** Prevent the problem of not calling the completion callback function:
 		// If a processing result already exists when setting the callback function,
 		// call the callback function directly. ****
-		if atomic.LoadInt32(&aor.hasReturnedObj) == 1 {
-			aor.doComplete()
-		}
+		aor.doComplete()
 	}
 }
 
 // doComplete executes the completion callback function, double-checking when setting the processing result and callback function to prevent the possibility of not calling the callback function
 // (执行完成回调,在设置处理结果和回调函数的时候双重检查，杜绝未调用回调函数的可能性)
 func (aor *AsyncOpResult) doComplete() {
+	// Both sides publish their value before they look at the other's, so the later one always gets here
+	// (双方都先发布自己的值再检查对方，因此后到的一方一定会执行回调)
+	if atomic.LoadInt32(&aor.hasReturnedObj) != 2 || atomic.LoadInt32(&aor.hasCompleteFunc) != 2 {
+		return
+	}
 	if aor.completeFunc == nil {
 		return
 	}
-- 
2.43.0


From 1cbeda2d9209c4e80ab5d9c98bc965e048d4ca53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:14 +0000
Subject: [PATCH 27/44] fix: hold no lock of the notifier while a broadcast is
 sent

---
 znotify/notify.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/znotify/notify.go b/znotify/notify.go
index 51b1107..b1783da 100644
--- a/znotify/notify.go
+++ b/znotify/notify.go
@@ -74,15 +74,24 @@ func (n *notify) NotifyToConnByID(Id uint64, MsgId uint32, data []byte) error {
 	return nil
 }
 
+// allConns copies the current bindings, so that no lock is held while messages are sent
+// (拷贝当前的绑定关系，发送消息时不持有锁)
+func (n *notify) allConns() map[string]ziface.IConnection {
+	conns := make(map[string]ziface.IConnection)
+	n.connIdMap.IterCb(func(key string, v interface{}) {
+		conns[key], _ = v.(ziface.IConnection)
+	})
+	return conns
+}
+
 func (n *notify) NotifyAll(MsgId uint32, data []byte) error {
 
-	n.connIdMap.IterCb(func(key string, v interface{}) {
-		conn, _ := v.(ziface.IConnection)
+	for key, conn := range n.allConns() {
 		err := conn.SendMsg(MsgId, data)
 		if err != nil {
 			zlog.Ins().ErrorF("Notify to %s err:%s \n", key, err)
 		}
-	})
+	}
 
 	return nil
 }
@@ -102,13 +111,12 @@ func (n *notify) NotifyBuffToConnByID(Id uint64, MsgId uint32, data []byte) erro
 
 func (n *notify) NotifyBuffAll(MsgId uint32, data []byte) error {
 
-	n.connIdMap.IterCb(func(key string, v interface{}) {
-		conn, _ := v.(ziface.IConnection)
+	for key, conn := range n.allConns() {
 		err := conn.SendBuffMsg(MsgId, data)
 		if err != nil {
 			zlog.Ins().ErrorF("Notify to %s err:%s \n", key, err)
 		}
-	})
+	}
 
 	return nil
 }
-- 
2.43.0


From ed335785c2309f03f8812de5888e959f930e533c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:14 +0000
Subject: [PATCH 28/44] fix: let OnComplete not wait for room in its own
 worker's queue

---
 zasync_op/async_op_result.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zasync_op/async_op_result.go b/zasync_op/async_op_result.go
index c5d8f29..f09de47 100644
--- a/zasync_op/async_op_result.go
+++ b/zasync_op/async_op_result.go
@@ -56,8 +56,9 @@ func (aor *AsyncOpResult) OnComplete(val func()) {
 		// **** 防止未调用回调函数问题:设置回调函数时，发现已经有处理结果了，直接调用 ****
 		// **** Prevent the problem of not calling the completion callback function:
 		// If a processing result already exists when setting the callback function,
-		// call the callback function directly. ****
-		aor.doComplete()
+		// call the callback function directly.
+		// Usually this is the worker that has to run the callback, so it must not wait for room in its own queue ****
+		go aor.doComplete()
 	}
 }
 
-- 
2.43.0


From 2d9b21697277f4851c6ac7ac60f1545f031e2683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:03 +0000
Subject: [PATCH 29/44] fix: lose no buffered log record when the file fails or
 is closed

---
 zutils/witer.go | 57 +++++++++++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/zutils/witer.go b/zutils/witer.go
index 01efae5..1b5d77c 100644
--- a/zutils/witer.go
+++ b/zutils/witer.go
@@ -2,7 +2,6 @@ package zutils
 
 import (
 	"archive/zip"
-	"bufio"
 	"bytes"
 	"fmt"
 	"io"
@@ -18,6 +17,7 @@ const (
 	sizeMiB    = 1024 * 1024
 	defMaxAge  = 31
 	defMaxSize = 64 //MiB
+	bufSize    = 4096
 )
 
 var _ io.WriteCloser = (*Writer)(nil)
@@ -35,7 +35,7 @@ type Writer struct {
 	creates   []byte    // 文件创建日期
 	cons      bool      // 标准输出  默认 false
 	file      *os.File
-	bw        *bufio.Writer
+	buf       []byte // 已接收但还没写入文件的数据
 	mu        sync.Mutex
 }
 
@@ -112,28 +112,45 @@ func (w *Writer) Write(p []byte) (n int, err error) {
 			return 0, err
 		}
 	}
-	// 按大小切割,需要考虑bw缓冲区中未写入的数据
-	if w.size+int64(len(p))+int64(w.bw.Buffered()) >= w.maxSize {
+	// 按大小切割,需要考虑buf缓冲区中未写入的数据
+	if w.size+int64(len(p))+int64(len(w.buf)) >= w.maxSize {
 		if err := w.rotate(); err != nil {
 			return 0, err
 		}
 	}
-	// n, err = w.file.Write(p)
-	n, err = w.bw.Write(p)
-	w.size += int64(n)
-	if err != nil {
-		return n, err
+	if len(w.buf)+len(p) > bufSize {
+		if err := w.writeOut(); err != nil {
+			return 0, err
+		}
+	}
+	w.buf = append(w.buf, p...)
+	w.size += int64(len(p))
+	if len(w.buf) >= bufSize {
+		w.writeOut() // 写入失败的数据保留在缓冲区，下次重试
+	}
+	return len(p), nil
+}
+
+// writeOut 把缓冲区写入文件，写入失败的部分保留在缓冲区
+func (w *Writer) writeOut() error {
+	if len(w.buf) == 0 || w.file == nil {
+		return nil
 	}
-	return
+	n, err := w.file.Write(w.buf)
+	w.buf = append(w.buf[:0], w.buf[n:]...)
+	return err
 }
 
 // rotate 切割文件
 func (w *Writer) rotate() error {
 	now := time.Now()
 	if w.file != nil {
-		w.bw.Flush()
+		if err := w.writeOut(); err != nil {
+			return err
+		}
 		w.file.Sync()
 		w.file.Close()
+		w.file = nil // 打开新文件失败时，下次写入会重试
 		// 保存
 		fbak := w.fname + w.time2name(w.created)
 		fbakname := fbak + w.fsuffix
@@ -161,7 +178,6 @@ func (w *Writer) rotate() error {
 		return err
 	}
 	w.file = fout
-	w.bw = bufio.NewWriter(w.file)
 	return nil
 }
 
@@ -199,20 +215,18 @@ func (w *Writer) time2name(t time.Time) string {
 	return t.Format(".2006-01-02-150405.000000")
 }
 
+// Close writes out what is buffered and closes the file if it is open.
 func (w *Writer) Close() error {
-	w.flush()
-	return w.close()
-}
-
-// close closes the file if it is open.
-func (w *Writer) close() error {
 	w.mu.Lock()
 	defer w.mu.Unlock()
 	if w.file == nil {
 		return nil
 	}
+	err := w.writeOut()
 	w.file.Sync()
-	err := w.file.Close()
+	if err1 := w.file.Close(); err == nil {
+		err = err1
+	}
 	w.file = nil
 	return err
 }
@@ -220,10 +234,7 @@ func (w *Writer) close() error {
 func (w *Writer) flush() error {
 	w.mu.Lock()
 	defer w.mu.Unlock()
-	if w.bw == nil {
-		return nil
-	}
-	return w.bw.Flush()
+	return w.writeOut()
 }
 
 // ZipToFile 压缩至文件
-- 
2.43.0


From 25879747113215d867087b0e94e6520bc6c00637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:12 +0000
Subject: [PATCH 30/44] fix: keep a rotated log file whose compression failed

---
 zutils/witer.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/zutils/witer.go b/zutils/witer.go
index 1b5d77c..6939af0 100644
--- a/zutils/witer.go
+++ b/zutils/witer.go
@@ -247,10 +247,13 @@ func ZipToFile(dst, src string) error {
 	if err != nil {
 		return err
 	}
-	defer fw.Close()
 
 	// 执行压缩
-	return Zip(fw, src)
+	err = Zip(fw, src)
+	if err1 := fw.Close(); err == nil {
+		err = err1
+	}
+	return err
 }
 
 // Zip 压缩文件或目录
@@ -269,11 +272,9 @@ func Zip(dst io.Writer, src string) error {
 
 	// 通文件流句柄创建一个ZIP压缩包
 	zw := zip.NewWriter(dst)
-	// 延迟关闭这个压缩包
-	defer zw.Close()
 
 	// 通过filepath封装的Walk来递归处理源路径到压缩文件中
-	return filepath.Walk(src, func(path string, info fs.FileInfo, err error) error {
+	err = filepath.Walk(src, func(path string, info fs.FileInfo, err error) error {
 		// 是否存在异常
 		if err != nil {
 			return err
@@ -328,4 +329,9 @@ func Zip(dst io.Writer, src string) error {
 		// 搞定
 		return nil
 	})
+	// 关闭这个压缩包，此时才会写入全部内容
+	if err1 := zw.Close(); err == nil {
+		err = err1
+	}
+	return err
 }
-- 
2.43.0


From 8f5989f49c15433e4849692a18c69b2f29a69a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:20 +0000
Subject: [PATCH 31/44] fix: expire exactly the rotated files of this log, by
 local time

---
 zutils/witer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zutils/witer.go b/zutils/witer.go
index 6939af0..81a8b99 100644
--- a/zutils/witer.go
+++ b/zutils/witer.go
@@ -206,10 +206,13 @@ func (w *Writer) delete() {
 }
 
 func (w *Writer) name2time(name string) (time.Time, error) {
-	name = strings.TrimPrefix(name, filepath.Base(w.fname))
+	if !strings.HasPrefix(name, w.fname) || !strings.HasSuffix(name, w.zipsuffix) {
+		return time.Time{}, fmt.Errorf("%s is not a rotated file of %s", name, w.fname)
+	}
+	name = strings.TrimPrefix(name, w.fname)
 	name = strings.TrimSuffix(name, w.zipsuffix)
 	// 改为微秒级别的文件后缀，避免1s内大量写入造成多次rotate，而覆盖丢失之前的日志文件
-	return time.Parse(".2006-01-02-150405.000000", name)
+	return time.ParseInLocation(".2006-01-02-150405.000000", name, time.Local)
 }
 func (w *Writer) time2name(t time.Time) string {
 	return t.Format(".2006-01-02-150405.000000")
-- 
2.43.0


From 63a5668d9a8fa17368d9cdd5563307b5de5c5260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:17 +0000
Subject: [PATCH 32/44] fix: end the log line of an empty message

---
 zlog/logger_core.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zlog/logger_core.go b/zlog/logger_core.go
index 143e64c..3b31fa2 100644
--- a/zlog/logger_core.go
+++ b/zlog/logger_core.go
@@ -220,7 +220,7 @@ func (log *ZinxLoggerCore) OutPut(level int, s string) error {
 	// write log content
 	log.buf.WriteString(s)
 	// add line break
-	if len(s) > 0 && s[len(s)-1] != '\n' {
+	if len(s) == 0 || s[len(s)-1] != '\n' {
 		log.buf.WriteByte('\n')
 	}
 
-- 
2.43.0


From ae46c4ce126dfc293a4c7d9143610811adb17726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:25 +0000
Subject: [PATCH 33/44] fix: print the level and the caller also without date
 and time

---
 zlog/logger_core.go | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/zlog/logger_core.go b/zlog/logger_core.go
index 3b31fa2..ae1119b 100644
--- a/zlog/logger_core.go
+++ b/zlog/logger_core.go
@@ -165,31 +165,31 @@ func (log *ZinxLoggerCore) formatHeader(t time.Time, file string, line int, leve
 			}
 			buf.WriteByte(' ')
 		}
+	}
 
-		// Log level flag is set
-		if log.flag&BitLevel != 0 {
-			buf.WriteString(levels[level])
-		}
+	// Log level flag is set
+	if log.flag&BitLevel != 0 {
+		buf.WriteString(levels[level])
+	}
 
-		// Short file name flag or long file name flag is set
-		if log.flag&(BitShortFile|BitLongFile) != 0 {
-			// Short file name flag is set
-			if log.flag&BitShortFile != 0 {
-				short := file
-				for i := len(file) - 1; i > 0; i-- {
-					if file[i] == '/' {
-						// Get the file name after the last '/' character, e.g. "zinx.go" from "/home/go/src/zinx.go"
-						short = file[i+1:]
-						break
-					}
+	// Short file name flag or long file name flag is set
+	if log.flag&(BitShortFile|BitLongFile) != 0 {
+		// Short file name flag is set
+		if log.flag&BitShortFile != 0 {
+			short := file
+			for i := len(file) - 1; i > 0; i-- {
+				if file[i] == '/' {
+					// Get the file name after the last '/' character, e.g. "zinx.go" from "/home/go/src/zinx.go"
+					short = file[i+1:]
+					break
 				}
-				file = short
 			}
-			buf.WriteString(file)
-			buf.WriteByte(':')
-			itoa(buf, line, -1) // line number
-			buf.WriteString(": ")
+			file = short
 		}
+		buf.WriteString(file)
+		buf.WriteByte(':')
+		itoa(buf, line, -1) // line number
+		buf.WriteString(": ")
 	}
 }
 
-- 
2.43.0


From bc53fbeb06ca39a0725abd9924cb0dda2ff48f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:24 +0000
Subject: [PATCH 34/44] fix: take over every logging field of a user
 configuration

---
 zconf/userconf.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/zconf/userconf.go b/zconf/userconf.go
index e1c8bfd..d4ffa4c 100644
--- a/zconf/userconf.go
+++ b/zconf/userconf.go
@@ -47,22 +47,35 @@ func UserConfToGlobal(config *Config) {
 	}
 
 	// logger
-	// By default, it is False. If the config is not initialized, the default configuration will be used.
-	// (默认是False, config没有初始化即使用默认配置)
-	GlobalObject.LogIsolationLevel = config.LogIsolationLevel
-	if GlobalObject.LogIsolationLevel > zlog.LogDebug {
-		zlog.SetLogLevel(GlobalObject.LogIsolationLevel)
-	}
-
 	// Different from the required fields mentioned above, the logging module should use the default configuration if it is not configured.
 	// (不同于上方必填项 日志目前如果没配置应该使用默认配置)
+	logConfigured := false
+	if config.LogIsolationLevel > zlog.LogDebug {
+		GlobalObject.LogIsolationLevel = config.LogIsolationLevel
+		logConfigured = true
+	}
 	if config.LogDir != "" {
 		GlobalObject.LogDir = config.LogDir
+		logConfigured = true
 	}
-
 	if config.LogFile != "" {
 		GlobalObject.LogFile = config.LogFile
-		zlog.SetLogFile(GlobalObject.LogDir, GlobalObject.LogFile)
+		logConfigured = true
+	}
+	if config.LogSaveDays != 0 {
+		GlobalObject.LogSaveDays = config.LogSaveDays
+		logConfigured = true
+	}
+	if config.LogFileSize != 0 {
+		GlobalObject.LogFileSize = config.LogFileSize
+		logConfigured = true
+	}
+	if config.LogCons {
+		GlobalObject.LogCons = config.LogCons
+		logConfigured = true
+	}
+	if logConfigured {
+		GlobalObject.InitLogConfig()
 	}
 
 	// Keepalive
-- 
2.43.0


From 408519a20841771c77a7b3bfd3758958b1dc6651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:32 +0000
Subject: [PATCH 35/44] fix: map every position of the AOI map to the cell that
 contains it

---
 zinx_app_demo/mmo_game/core/aoi.go | 35 ++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/zinx_app_demo/mmo_game/core/aoi.go b/zinx_app_demo/mmo_game/core/aoi.go
index 7304f29..803e983 100644
--- a/zinx_app_demo/mmo_game/core/aoi.go
+++ b/zinx_app_demo/mmo_game/core/aoi.go
@@ -1,6 +1,9 @@
 package core
 
-import "fmt"
+import (
+	"fmt"
+	"math"
+)
 
 const (
 	AOI_MIN_X  int = 85
@@ -46,11 +49,20 @@ func NewAOIManager(minX, maxX, cntsX, minY, maxY, cntsY int) *AOIManager {
 
 			// Initialize a grid in the AOI map, where the key is the current grid's ID
 			// 初始化一个格子放在AOI中的map里，key是当前格子的ID
-			aoiMgr.grIDs[gID] = NewGrID(gID,
+			grID := NewGrID(gID,
 				aoiMgr.MinX+x*aoiMgr.grIDWIDth(),
 				aoiMgr.MinX+(x+1)*aoiMgr.grIDWIDth(),
 				aoiMgr.MinY+y*aoiMgr.grIDLength(),
 				aoiMgr.MinY+(y+1)*aoiMgr.grIDLength())
+			// The last column and row reach to the border of the map
+			// (最后一列和最后一行一直延伸到地图边界)
+			if x == cntsX-1 {
+				grID.MaxX = maxX
+			}
+			if y == cntsY-1 {
+				grID.MaxY = maxY
+			}
+			aoiMgr.grIDs[gID] = grID
 		}
 	}
 
@@ -134,12 +146,27 @@ func (m *AOIManager) GetSurroundGrIDsByGID(gID int) (grIDs []*GrID) {
 // GetGIDByPos Get the corresponding grid ID by horizontal and vertical coordinates
 // 通过横纵坐标获取对应的格子ID
 func (m *AOIManager) GetGIDByPos(x, y float32) int {
-	gx := (int(x) - m.MinX) / m.grIDWIDth()
-	gy := (int(y) - m.MinY) / m.grIDLength()
+	gx := grIDIndex(x, m.MinX, m.grIDWIDth(), m.CntsX)
+	gy := grIDIndex(y, m.MinY, m.grIDLength(), m.CntsY)
 
 	return gy*m.CntsX + gx
 }
 
+// grIDIndex Get the column (row) of a coordinate. What is left over at the right (lower) border of the map
+// belongs to the last column (row), and coordinates outside of the map to the nearest one
+// (得到坐标所在的列(行)，右(下)边界剩余的部分属于最后一列(行)，地图外的坐标属于最近的一列(行))
+func grIDIndex(pos float32, min, size, cnts int) int {
+	// Round down also to the left of the origin
+	i := int(math.Floor((float64(pos) - float64(min)) / float64(size)))
+	if i < 0 {
+		return 0
+	}
+	if i >= cnts {
+		return cnts - 1
+	}
+	return i
+}
+
 // GetPIDsByPos Get all PlayerIDs within the surrounding nine grids by horizontal and vertical coordinates
 // 通过横纵坐标得到周边九宫格内的全部PlayerIDs
 func (m *AOIManager) GetPIDsByPos(x, y float32) (playerIDs []int) {
-- 
2.43.0


From 1a437d95ebeae1619dbe7acc214ffa846f99cc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:44 +0000
Subject: [PATCH 36/44] fix: skip players that went offline while their
 neighbours are looked up

---
 zinx_app_demo/mmo_game/core/player.go        | 10 ++++++++--
 zinx_app_demo/mmo_game/core/world_manager.go |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/zinx_app_demo/mmo_game/core/player.go b/zinx_app_demo/mmo_game/core/player.go
index 3736825..48fcc7c 100644
--- a/zinx_app_demo/mmo_game/core/player.go
+++ b/zinx_app_demo/mmo_game/core/player.go
@@ -96,7 +96,10 @@ func (p *Player) SyncSurrounding() {
 	// 3 Send MsgID:200 message to these players to display themselves in each other's views
 	// 给这些玩家发送MsgID:200消息，让自己出现在对方视野中
 	for _, pID := range pIDs {
-		players = append(players, WorldMgrObj.GetPlayerByPID(int32(pID)))
+		// The player may have gone offline in the meantime(玩家可能已经下线)
+		if player := WorldMgrObj.GetPlayerByPID(int32(pID)); player != nil {
+			players = append(players, player)
+		}
 	}
 
 	// 3.1 Assemble MsgID200 proto data
@@ -357,7 +360,10 @@ func (p *Player) GetSurroundingPlayers() []*Player {
 	// 将所有pID对应的Player放到Player切片中
 	players := make([]*Player, 0, len(pIDs))
 	for _, pID := range pIDs {
-		players = append(players, WorldMgrObj.GetPlayerByPID(int32(pID)))
+		// The player may have gone offline in the meantime(玩家可能已经下线)
+		if player := WorldMgrObj.GetPlayerByPID(int32(pID)); player != nil {
+			players = append(players, player)
+		}
 	}
 
 	return players
diff --git a/zinx_app_demo/mmo_game/core/world_manager.go b/zinx_app_demo/mmo_game/core/world_manager.go
index 7d785fa..cfc4fe1 100644
--- a/zinx_app_demo/mmo_game/core/world_manager.go
+++ b/zinx_app_demo/mmo_game/core/world_manager.go
@@ -86,7 +86,10 @@ func (wm *WorldManager) GetPlayersByGID(gID int) []*Player {
 	players := make([]*Player, 0, len(pIDs))
 	wm.pLock.RLock()
 	for _, pID := range pIDs {
-		players = append(players, wm.Players[int32(pID)])
+		// The player may have gone offline in the meantime(玩家可能已经下线)
+		if player := wm.Players[int32(pID)]; player != nil {
+			players = append(players, player)
+		}
 	}
 	wm.pLock.RUnlock()
 
-- 
2.43.0


From 5346eef5711b39d0e02a386697bf8921a91fd6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:31 +0000
Subject: [PATCH 37/44] fix: give every WebSocket handshake its own upgrader

The handshake handler stored the subprotocols a request offered in the
upgrader all requests share. Handshakes run concurrently, so a client
could be answered with the subprotocol another client offered, or with
none although it offered one.
---
 znet/server.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/znet/server.go b/znet/server.go
index c7a0735..e4f2f61 100644
--- a/znet/server.go
+++ b/znet/server.go
@@ -380,12 +380,15 @@ func (s *Server) ListenWebsocketConn() {
 		}
 		// 3. Check if there is a subprotocol specified in the header
 		// (判断 header 里面是有子协议)
+		// The handlers run concurrently, so every request gets its own copy of the upgrader
+		// (各请求并发处理，因此每个请求使用自己的 upgrader 副本)
+		upgrader := *s.upgrader
 		if len(r.Header.Get("Sec-Websocket-Protocol")) > 0 {
-			s.upgrader.Subprotocols = websocket.Subprotocols(r)
+			upgrader.Subprotocols = websocket.Subprotocols(r)
 		}
 		// 4. Upgrade the connection to a websocket connection
 		// (升级成 websocket 连接)
-		conn, err := s.upgrader.Upgrade(w, r, nil)
+		conn, err := upgrader.Upgrade(w, r, nil)
 		if err != nil {
 			zlog.Ins().ErrorF("new websocket err:%v", err)
 			w.WriteHeader(500)
-- 
2.43.0


From 32d03ff06a957443007c92072b88e9f289ad9ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:01 +0000
Subject: [PATCH 38/44] fix: survive an asynchronous result whose worker ended
 with its connection

In DynamicBind mode a connection that was served by an extra worker takes
that worker's queue with it. Completing an asynchronous operation of such a
connection then sent on the closed queue, and as OnComplete does that in a
goroutine of its own the panic ended the process.
---
 zasync_op/async_op_result.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zasync_op/async_op_result.go b/zasync_op/async_op_result.go
index f09de47..cb826cf 100644
--- a/zasync_op/async_op_result.go
+++ b/zasync_op/async_op_result.go
@@ -10,6 +10,7 @@ import (
 	"sync/atomic"
 
 	"github.com/aceld/zinx/ziface"
+	"github.com/aceld/zinx/zlog"
 	"github.com/aceld/zinx/znet"
 )
 
@@ -79,6 +80,13 @@ func (aor *AsyncOpResult) doComplete() {
 		// Prevent cross-thread calling problems,
 		// throw it to the corresponding business thread to execute
 		// (防止跨线程调用问题,扔到所属业务线程里去执行)
+		// An extra worker ends together with its connection, nobody is left to run the callback then
+		// (临时worker会随连接一起结束，此时已没有可执行回调的worker)
+		defer func() {
+			if err := recover(); err != nil {
+				zlog.Ins().ErrorF("async callback of connID=%d dropped: %v", aor.conn.GetConnID(), err)
+			}
+		}()
 		request := znet.NewFuncRequest(aor.conn, aor.completeFunc)
 		aor.conn.GetMsgHandler().SendMsgToTaskQueue(request)
 	}
-- 
2.43.0


From 835fe674f52501ff5459581bbfb77a44255bc3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:22 +0000
Subject: [PATCH 39/44] fix: a client in DynamicBind mode must not close the
 queue of a worker that was never started

---
 znet/msghandler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/znet/msghandler.go b/znet/msghandler.go
index 4e0d049..b8abb51 100644
--- a/znet/msghandler.go
+++ b/znet/msghandler.go
@@ -235,8 +235,9 @@ func freeWorker(conn ziface.IConnection) {
 
 	if zconf.GlobalObject.WorkerMode == zconf.WorkerModeDynamicBind {
 		workerID := conn.GetWorkerID()
-		if workerID < mh.WorkerPoolSize {
+		if workerID < mh.WorkerPoolSize || mh.TaskQueue[workerID] == nil {
 			// 说明这个是工作线程池里的workerID，回收这个workerID, workerID对应的worker不需要销毁
+			// (a client's pool is never started: none of its workers has a queue to close)
 			mh.freeWorkerMu.Lock()
 			mh.freeWorkers[workerID] = struct{}{}
 			mh.freeWorkerMu.Unlock()
-- 
2.43.0


From b47d798c2195ffda1685ce0b7f738a8340f492c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:13 +0000
Subject: [PATCH 40/44] fix: a stack dump below the log level must not be
 written

---
 zlog/logger_core.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zlog/logger_core.go b/zlog/logger_core.go
index ae1119b..4f94bf3 100644
--- a/zlog/logger_core.go
+++ b/zlog/logger_core.go
@@ -334,6 +334,9 @@ func (log *ZinxLoggerCore) Panic(v ...interface{}) {
 }
 
 func (log *ZinxLoggerCore) Stack(v ...interface{}) {
+	if log.verifyLogIsolation(LogError) {
+		return
+	}
 	s := fmt.Sprint(v...)
 	s += "\n"
 	buf := make([]byte, LOG_MAX_BUF)
-- 
2.43.0


From 6f7ba6bc7a7258f569805857191a58a6041bf844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:38 +0000
Subject: [PATCH 41/44] fix: take over the user's KCP stream mode when the
 configuration file turned it off

---
 zconf/userconf.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/zconf/userconf.go b/zconf/userconf.go
index d4ffa4c..0c5b760 100644
--- a/zconf/userconf.go
+++ b/zconf/userconf.go
@@ -117,9 +117,7 @@ func UserConfToGlobal(config *Config) {
 		GlobalObject.KcpACKNoDelay = config.KcpACKNoDelay
 	}
 
-	if !config.KcpStreamMode {
-		GlobalObject.KcpStreamMode = config.KcpStreamMode
-	}
+	GlobalObject.KcpStreamMode = config.KcpStreamMode
 
 	if config.KcpNoDelay != 0 {
 		GlobalObject.KcpNoDelay = config.KcpNoDelay
-- 
2.43.0


From f73bde0ce4a663a8bc9afa3052e93dcd4bfd9bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:21 +0000
Subject: [PATCH 42/44] fix: handle what a TLS peer sent just before closing
 the connection

---
 znet/connection.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/znet/connection.go b/znet/connection.go
index b2aaabe..95a64c4 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -248,8 +248,10 @@ func (c *Connection) StartReader() {
 
 			// read data from the connection's IO into the memory buffer
 			// (从conn的IO中读取数据到内存缓冲buffer中)
+			// A TLS connection may return the last bytes together with the error, which the next read repeats
+			// (TLS连接可能同时返回最后的数据和错误，下次读取会再次返回该错误)
 			n, err := c.conn.Read(buffer)
-			if err != nil {
+			if err != nil && n == 0 {
 				zlog.Ins().ErrorF("read msg head [read datalen=%d], error = %s", n, err)
 				return
 			}
-- 
2.43.0


From 6b30e87c9d0e973a29671205c732251318908ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:54 +0000
Subject: [PATCH 43/44] fix: guard the accept delay, which the listeners and
 WebSocket handlers share

---
 znet/acceptdelay.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/znet/acceptdelay.go b/znet/acceptdelay.go
index 7046c38..d931dac 100644
--- a/znet/acceptdelay.go
+++ b/znet/acceptdelay.go
@@ -1,6 +1,7 @@
 package znet
 
 import (
+	"sync"
 	"time"
 )
 
@@ -15,6 +16,9 @@ func init() {
 }
 
 type acceptDelay struct {
+	// The listeners and the concurrent WebSocket requests share the delay
+	// (各监听与并发的WebSocket请求共享该延迟)
+	mu       sync.Mutex
 	duration time.Duration
 }
 
@@ -24,10 +28,14 @@ func (d *acceptDelay) Delay() {
 }
 
 func (d *acceptDelay) Reset() {
+	d.mu.Lock()
+	defer d.mu.Unlock()
 	d.duration = 0
 }
 
 func (d *acceptDelay) Up() {
+	d.mu.Lock()
+	defer d.mu.Unlock()
 	if d.duration == 0 {
 		d.duration = 5 * time.Millisecond
 		return
@@ -39,7 +47,10 @@ func (d *acceptDelay) Up() {
 }
 
 func (d *acceptDelay) do() {
-	if d.duration > 0 {
-		time.Sleep(d.duration)
+	d.mu.Lock()
+	duration := d.duration
+	d.mu.Unlock()
+	if duration > 0 {
+		time.Sleep(duration)
 	}
 }
-- 
2.43.0


From 7da33b409bf930b6a8e72ad1f3f2932f0fc56c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:42 +0000
Subject: [PATCH 44/44] fix: dial IPv6 addresses over TLS and WebSocket

---
 znet/client.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/znet/client.go b/znet/client.go
index 71ef9fb..93239ff 100644
--- a/znet/client.go
+++ b/znet/client.go
@@ -2,9 +2,10 @@ package znet
 
 import (
 	"crypto/tls"
-	"fmt"
 	"net"
 	"net/url"
+	"strconv"
+	"strings"
 	"sync"
 	"time"
 
@@ -114,6 +115,12 @@ func NewTLSClient(ip string, port int, opts ...ClientOption) ziface.IClient {
 	return c
 }
 
+// address returns host:port of the server, with the brackets an IPv6 address needs
+// (返回服务器的host:port，IPv6地址带方括号)
+func (c *Client) address() string {
+	return net.JoinHostPort(strings.Trim(c.Ip, "[]"), strconv.Itoa(c.Port))
+}
+
 // Start starts the client, sends requests and establishes a connection.
 // (重新启动客户端，发送请求且建立连接)
 func (c *Client) Restart() {
@@ -149,7 +156,7 @@ func (c *Client) Restart() {
 		var rawConn interface{ Close() error }
 		switch c.version {
 		case "websocket":
-			wsAddr := fmt.Sprintf("ws://%s:%d", c.Ip, c.Port)
+			wsAddr := "ws://" + c.address()
 			if c.Url != nil {
 				wsAddr = c.Url.String()
 			}
@@ -177,7 +184,7 @@ func (c *Client) Restart() {
 					InsecureSkipVerify: true,
 				}
 
-				conn, err = tls.Dial("tcp", fmt.Sprintf("%v:%v", net.ParseIP(c.Ip), c.Port), config)
+				conn, err = tls.Dial("tcp", c.address(), config)
 				if err != nil {
 					zlog.Ins().ErrorF("tls client connect to server failed, err:%v", err)
 					c.reportErr(exitChan, err)
-- 
2.43.0

