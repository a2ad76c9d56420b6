From 97cdf0bd736c02ecf6f50bd5384f037ac1da60ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:05 +0000
Subject: [PATCH 01/24] fix: frame decoder skips exactly the oversized frame
 and rejects frames shorter than their header

---
 zinterceptor/framedecoder.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/zinterceptor/framedecoder.go b/zinterceptor/framedecoder.go
index cd3db2b..87c80cc 100644
--- a/zinterceptor/framedecoder.go
+++ b/zinterceptor/framedecoder.go
@@ -371,6 +371,9 @@ func (d *FrameDecoder) discardingTooLongFrameFunc(buffer *bytes.Buffer) {
 	// Discard (丢弃)
 	buffer.Next(int(localBytesToDiscard))
 
+	// The discarded bytes are consumed, keep only what follows them (已丢弃的字节不再保留)
+	d.in = buffer.Bytes()
+
 	// Update the number of bytes still to be discarded (更新还需丢弃的字节数)
 	bytesToDiscard -= int64(localBytesToDiscard)
 
@@ -429,6 +432,11 @@ func (d *FrameDecoder) failOnNegativeLengthField(in *bytes.Buffer, frameLength i
 	panic(fmt.Sprintf("negative pre-adjustment length field: %d", frameLength))
 }
 
+func (d *FrameDecoder) failOnFrameLengthLessThanLengthFieldEndOffset(in *bytes.Buffer, frameLength int64, lengthFieldEndOffset int) {
+	in.Next(lengthFieldEndOffset)
+	panic(fmt.Sprintf("Adjusted frame length (%d) is less than lengthFieldEndOffset: %d", frameLength, lengthFieldEndOffset))
+}
+
 func (d *FrameDecoder) failIfNecessary(firstDetectionOfTooLongFrame bool) {
 	if d.bytesToDiscard == 0 {
 		// Indicates that the data to be discarded has been discarded (说明需要丢弃的数据已经丢弃完成)
@@ -482,6 +490,9 @@ func (d *FrameDecoder) exceededFrameLength(in *bytes.Buffer, frameLength int64)
 		in.Next(in.Len())
 	}
 
+	// The discarded bytes are consumed, keep only what follows them (已丢弃的字节不再保留)
+	d.in = in.Bytes()
+
 	// Update the status and determine if there is an error. (更新状态，判断是否有误)
 	d.failIfNecessary(true)
 }
@@ -532,6 +543,12 @@ func (d *FrameDecoder) decode(buf []byte) []byte {
 	// So the frameLength calculated in the end is the length of the entire data packet (那说明最后计算出的frameLength就是整个数据包的长度)
 	frameLength += int64(d.LengthAdjustment) + int64(d.LengthFieldEndOffset)
 
+	// A frame can never be shorter than the header that declares its length
+	// (数据包长度不可能小于其自身包头的长度)
+	if frameLength < int64(d.LengthFieldEndOffset) {
+		d.failOnFrameLengthLessThanLengthFieldEndOffset(in, frameLength, d.LengthFieldEndOffset)
+	}
+
 	// Discard mode is turned on here (丢弃模式就是在这开启的)
 	// If the data packet length is greater than the maximum length (如果数据包长度大于最大长度)
 	if uint64(frameLength) > d.MaxFrameLength {
@@ -581,6 +598,7 @@ func (d *FrameDecoder) Decode(buff []byte) [][]byte {
 	resp := make([][]byte, 0)
 
 	for {
+		left := len(d.in)
 		arr := d.decode(d.in)
 
 		if arr != nil {
@@ -591,7 +609,9 @@ func (d *FrameDecoder) Decode(buff []byte) [][]byte {
 			if _size > 0 {
 				d.in = d.in[_size:]
 			}
-		} else {
+		} else if len(d.in) == left {
+			// Nothing was consumed, more data is needed
+			// (没有消费任何数据，需要等待更多数据)
 			return resp
 		}
 	}
-- 
2.43.0


From 1ccfaf39858ec48a35fda6caa6284475386e32ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:19 +0000
Subject: [PATCH 02/24] fix: HTLV decoder drops a frame with a bad checksum
 instead of dereferencing nil

---
 zdecoder/htlvcrcdecoder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zdecoder/htlvcrcdecoder.go b/zdecoder/htlvcrcdecoder.go
index 09e39f0..b3e72ba 100644
--- a/zdecoder/htlvcrcdecoder.go
+++ b/zdecoder/htlvcrcdecoder.go
@@ -135,6 +135,11 @@ func (hcd *HtlvCrcDecoder) Intercept(chain ziface.IChain) ziface.IcResp {
 
 	//4. HTLV+CRC Decode
 	htlvData := hcd.decode(data)
+	if htlvData == nil {
+		// The checksum does not match, drop the frame
+		// (CRC校验失败，丢弃该数据包)
+		return nil
+	}
 
 	//5. Set the decoded data back to the IMessage, the Zinx Router needs MsgID for addressing
 	// (将解码后的数据重新设置到IMessage中, Zinx的Router需要MsgID来寻址)
-- 
2.43.0


From 39e1f1601a6843a0e3969cc33ee828e80e5ec2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:19 +0000
Subject: [PATCH 03/24] fix: HTLV decoder's maximum frame length admits a
 255-byte body

---
 zdecoder/htlvcrcdecoder.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zdecoder/htlvcrcdecoder.go b/zdecoder/htlvcrcdecoder.go
index b3e72ba..c49c654 100644
--- a/zdecoder/htlvcrcdecoder.go
+++ b/zdecoder/htlvcrcdecoder.go
@@ -16,7 +16,7 @@
 // lengthFieldLength = 1 (len is 1 byte) The length of the length field in bytes
 // lengthAdjustment = 2 (len only represents the length of the Body, the program will only read len bytes and end, but there are still 2 bytes of CRC to read, so it's 2)
 // initialBytesToStrip = 0 (this 0 represents the complete protocol content. If you don't want A2, then it's 1) The number of bytes to strip from the decoding frame for the first time
-// maxFrameLength = 255 + 4 (starting code, function code, CRC) (len is 1 byte, so the maximum length is the maximum value of an unsigned byte plus 4 bytes)
+// maxFrameLength = 255 + 5 (starting code, function code, length, CRC) (len is 1 byte, so the maximum length is the maximum value of an unsigned byte plus 5 bytes)
 
 // [简体中文]
 //
@@ -38,7 +38,7 @@
 //   lengthFieldLength   = 1   (len是1个byte) 长度字段占的字节数
 //   lengthAdjustment    = 2   (len只表示Body长度，程序只会读取len个字节就结束，但是CRC还有2byte没读呢，所以为2)
 //   initialBytesToStrip = 0   (这个0表示完整的协议内容，如果不想要A2，那么这里就是1) 从解码帧中第一次去除的字节数
-//   maxFrameLength      = 255 + 4(起始码、功能码、CRC) (len是1个byte，所以最大长度是无符号1个byte的最大值)
+//   maxFrameLength      = 255 + 5(起始码、功能码、数据长度、CRC) (len是1个byte，所以最大长度是无符号1个byte的最大值)
 
 package zdecoder
 
@@ -79,9 +79,9 @@ func (hcd *HtlvCrcDecoder) GetLengthField() *ziface.LengthField {
 	//   lengthFieldLength   = 1   (len是1个byte) 长度字段占的字节数
 	//   lengthAdjustment    = 2   (len只表示Body长度，程序只会读取len个字节就结束，但是CRC还有2byte没读呢，所以为2)
 	//   initialBytesToStrip = 0   (这个0表示完整的协议内容，如果不想要A2，那么这里就是1) 从解码帧中第一次去除的字节数
-	//   maxFrameLength      = 255 + 4(起始码、功能码、CRC) (len是1个byte，所以最大长度是无符号1个byte的最大值)
+	//   maxFrameLength      = 255 + 5(起始码、功能码、数据长度、CRC) (len是1个byte，所以最大长度是无符号1个byte的最大值)
 	return &ziface.LengthField{
-		MaxFrameLength:      math.MaxUint8 + 4,
+		MaxFrameLength:      math.MaxUint8 + HEADER_SIZE,
 		LengthFieldOffset:   2,
 		LengthFieldLength:   1,
 		LengthAdjustment:    2,
-- 
2.43.0


From 93f90ff9090a48b1701910b1dbeafb99de129798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:47 +0000
Subject: [PATCH 04/24] fix: merging a user configuration no longer ignores
 LogSaveDays, LogFileSize and LogCons

---
 zconf/userconf.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/zconf/userconf.go b/zconf/userconf.go
index e1c8bfd..23e15dd 100644
--- a/zconf/userconf.go
+++ b/zconf/userconf.go
@@ -65,6 +65,21 @@ func UserConfToGlobal(config *Config) {
 		zlog.SetLogFile(GlobalObject.LogDir, GlobalObject.LogFile)
 	}
 
+	if config.LogSaveDays != 0 {
+		GlobalObject.LogSaveDays = config.LogSaveDays
+		zlog.SetMaxAge(GlobalObject.LogSaveDays)
+	}
+
+	if config.LogFileSize != 0 {
+		GlobalObject.LogFileSize = config.LogFileSize
+		zlog.SetMaxSize(GlobalObject.LogFileSize)
+	}
+
+	if config.LogCons {
+		GlobalObject.LogCons = config.LogCons
+		zlog.SetCons(GlobalObject.LogCons)
+	}
+
 	// Keepalive
 	if config.HeartbeatMax != 0 {
 		GlobalObject.HeartbeatMax = config.HeartbeatMax
-- 
2.43.0


From da72f1b8381f3149d61d63900e98d283f2b792df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:47 +0000
Subject: [PATCH 05/24] fix: a user configuration can turn the KCP stream mode
 back on

---
 zconf/userconf.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/zconf/userconf.go b/zconf/userconf.go
index 23e15dd..267520b 100644
--- a/zconf/userconf.go
+++ b/zconf/userconf.go
@@ -119,9 +119,7 @@ func UserConfToGlobal(config *Config) {
 		GlobalObject.KcpACKNoDelay = config.KcpACKNoDelay
 	}
 
-	if !config.KcpStreamMode {
-		GlobalObject.KcpStreamMode = config.KcpStreamMode
-	}
+	GlobalObject.KcpStreamMode = config.KcpStreamMode
 
 	if config.KcpNoDelay != 0 {
 		GlobalObject.KcpNoDelay = config.KcpNoDelay
-- 
2.43.0


From 8df053660f9ad384bc4abc9972f201effb92cc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:05 +0000
Subject: [PATCH 06/24] fix: AOI cell of a position with fractional negative
 coordinates or in the strip left over by an uneven division

---
 zinx_app_demo/mmo_game/core/aoi.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/zinx_app_demo/mmo_game/core/aoi.go b/zinx_app_demo/mmo_game/core/aoi.go
index 7304f29..6353f18 100644
--- a/zinx_app_demo/mmo_game/core/aoi.go
+++ b/zinx_app_demo/mmo_game/core/aoi.go
@@ -1,6 +1,9 @@
 package core
 
-import "fmt"
+import (
+	"fmt"
+	"math"
+)
 
 const (
 	AOI_MIN_X  int = 85
@@ -134,8 +137,17 @@ func (m *AOIManager) GetSurroundGrIDsByGID(gID int) (grIDs []*GrID) {
 // GetGIDByPos Get the corresponding grid ID by horizontal and vertical coordinates
 // 通过横纵坐标获取对应的格子ID
 func (m *AOIManager) GetGIDByPos(x, y float32) int {
-	gx := (int(x) - m.MinX) / m.grIDWIDth()
-	gy := (int(y) - m.MinY) / m.grIDLength()
+	gx := (int(math.Floor(float64(x))) - m.MinX) / m.grIDWIDth()
+	gy := (int(math.Floor(float64(y))) - m.MinY) / m.grIDLength()
+
+	// The strip left over by an uneven division belongs to the last column/row
+	// (不能整除时剩余的边缘区域归属最后一列/行)
+	if gx >= m.CntsX {
+		gx = m.CntsX - 1
+	}
+	if gy >= m.CntsY {
+		gy = m.CntsY - 1
+	}
 
 	return gy*m.CntsX + gx
 }
-- 
2.43.0


From 4f71b2e51e347c27432c58b3b2349ce8e14f619d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:19 +0000
Subject: [PATCH 07/24] fix: a recycled request must not expose the response,
 router and handlers of its previous use

---
 znet/request.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/znet/request.go b/znet/request.go
index 6b6e474..3d5c5c9 100644
--- a/znet/request.go
+++ b/znet/request.go
@@ -94,7 +94,9 @@ func (r *Request) Reset(conn ziface.IConnection, msg ziface.IMessage) {
 	r.needNext = true
 	r.index = -1
 	r.keys = nil
-
+	r.router = nil
+	r.icResp = nil
+	r.handlers = nil
 }
 
 // Copy 在执行路由函数的时候可能会出现需要再起一个协程的需求,但是 Request 对象由对象池管理后无法保证新协程中的 Request 参数一致
-- 
2.43.0


From e19cb3d538c4da052338a77cb8b891aa693cd99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:19 +0000
Subject: [PATCH 08/24] fix: Request.Copy lost the response and the decoded
 data, and read the context without its lock

---
 znet/request.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/znet/request.go b/znet/request.go
index 3d5c5c9..c42ac34 100644
--- a/znet/request.go
+++ b/znet/request.go
@@ -110,26 +110,23 @@ func (r *Request) Copy() ziface.IRequest {
 		router:   nil,
 		steps:    r.steps,
 		needNext: false,
-		icResp:   nil,
+		icResp:   r.icResp,
 		handlers: nil,
 		index:    math.MaxInt8,
 	}
 
 	// 复制原本的上下文信息
 	newRequest.keys = make(map[string]interface{})
+	r.stepLock.RLock()
 	for k, v := range r.keys {
 		newRequest.keys[k] = v
 	}
+	r.stepLock.RUnlock()
 
-	// 复制一份原本的 icResp
-	copyResp := []ziface.IcResp{r.icResp}
-	newIcResp := make([]ziface.IcResp, 0, 1)
-	copy(newIcResp, copyResp)
-	for _, v := range newIcResp {
-		newRequest.icResp = v
-	}
 	// 复制一份原本的 msg 信息
-	newRequest.msg = zpack.NewMessageByMsgId(r.msg.GetMsgID(), r.msg.GetDataLen(), r.msg.GetRawData())
+	msg := zpack.NewMessageByMsgId(r.msg.GetMsgID(), r.msg.GetDataLen(), r.msg.GetRawData())
+	msg.SetData(r.msg.GetData())
+	newRequest.msg = msg
 
 	return newRequest
 }
-- 
2.43.0


From d3b3914fbe2282c25e9d778edd03bf534703c388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:19 +0000
Subject: [PATCH 09/24] fix: route handler index overflowed with more than 127
 handlers and on copied requests

---
 znet/request.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/znet/request.go b/znet/request.go
index c42ac34..0b4b30b 100644
--- a/znet/request.go
+++ b/znet/request.go
@@ -36,7 +36,7 @@ type Request struct {
 	needNext bool                   // whether to execute the next router function(是否需要执行下一个路由函数)
 	icResp   ziface.IcResp          // response data returned by the interceptors (拦截器返回数据)
 	handlers []ziface.RouterHandler // router function slice(路由函数切片)
-	index    int8                   // router function slice index(路由函数切片索引)
+	index    int                    // router function slice index(路由函数切片索引)
 	keys     map[string]interface{} // keys 路由处理时可能会存取的上下文信息
 }
 
@@ -212,7 +212,7 @@ func (r *Request) Call() {
 
 func (r *Request) Abort() {
 	if zconf.GlobalObject.RouterSlicesMode {
-		r.index = int8(len(r.handlers))
+		r.index = len(r.handlers)
 	} else {
 		r.stepLock.Lock()
 		r.steps = HANDLE_OVER
@@ -227,7 +227,7 @@ func (r *Request) BindRouterSlices(handlers []ziface.RouterHandler) {
 
 func (r *Request) RouterSlicesNext() {
 	r.index++
-	for r.index < int8(len(r.handlers)) {
+	for r.index < len(r.handlers) {
 		r.handlers[r.index](r)
 		r.index++
 	}
-- 
2.43.0


From 31633306a4348a09084a912df1101c1e1c572c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:29 +0000
Subject: [PATCH 10/24] fix: an extra worker in dynamic-bind mode was handed to
 several connections at once

---
 znet/msghandler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/znet/msghandler.go b/znet/msghandler.go
index 9d11558..4e0d049 100644
--- a/znet/msghandler.go
+++ b/znet/msghandler.go
@@ -193,6 +193,7 @@ func useWorker(conn ziface.IConnection) uint32 {
 		mh.extraFreeWorkerMu.Lock()
 		defer mh.extraFreeWorkerMu.Unlock()
 		for workerID := range mh.extraFreeWorkers {
+			delete(mh.extraFreeWorkers, workerID)
 			zlog.Ins().DebugF("start extra worker, workerID=%d", workerID)
 			mh.TaskQueue[workerID] = make(chan ziface.IRequest, zconf.GlobalObject.MaxWorkerTaskLen)
 			go mh.StartOneWorker(int(workerID), mh.TaskQueue[workerID])
-- 
2.43.0


From eaeaac782abd782a739f5a2348e7ee96c6878efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:30 +0000
Subject: [PATCH 11/24] fix: without a frame decoder a message shared the read
 buffer that the next read overwrites

---
 znet/connection.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/znet/connection.go b/znet/connection.go
index 4973bea..34c282b 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -277,7 +277,11 @@ func (c *Connection) StartReader() {
 					c.msgHandler.Execute(req)
 				}
 			} else {
-				msg := zpack.NewMessage(uint32(n), buffer[0:n])
+				// The next read reuses the buffer, so the message gets a copy of its bytes
+				// (下一次读取会复用buffer，因此消息需要持有自己的数据拷贝)
+				data := make([]byte, n)
+				copy(data, buffer[0:n])
+				msg := zpack.NewMessage(uint32(n), data)
 				// Get the current client's Request data
 				// (得到当前客户端请求的Request数据)
 				req := GetRequest(c, msg)
-- 
2.43.0


From 271001cc6c3e6b50d53b734351fa9320592b0668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:30 +0000
Subject: [PATCH 12/24] fix: a request was still read by the reader after it
 had been handed to its worker

---
 znet/msghandler.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/znet/msghandler.go b/znet/msghandler.go
index 4e0d049..e87d92f 100644
--- a/znet/msghandler.go
+++ b/znet/msghandler.go
@@ -300,9 +300,11 @@ func (mh *MsgHandle) AddInterceptor(interceptor ziface.IInterceptor) {
 func (mh *MsgHandle) SendMsgToTaskQueue(request ziface.IRequest) {
 	workerID := request.GetConnection().GetWorkerID()
 	// zlog.Ins().DebugF("Add ConnID=%d request msgID=%d to workerID=%d", request.GetConnection().GetConnID(), request.GetMsgID(), workerID)
+	// The request belongs to the worker once it is queued (it may even be recycled), so it is not touched afterwards
+	// (请求入队后归worker所有(甚至可能已被回收)，之后不再访问)
+	zlog.Ins().DebugF("SendMsgToTaskQueue-->%s", hex.EncodeToString(request.GetData()))
 	// Send the request message to the task queue
 	mh.TaskQueue[workerID] <- request
-	zlog.Ins().DebugF("SendMsgToTaskQueue-->%s", hex.EncodeToString(request.GetData()))
 }
 
 // doFuncHandler handles functional requests (执行函数式请求)
-- 
2.43.0


From 40df9bfbd56e32453548599091bf10c26ebbc036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:30 +0000
Subject: [PATCH 13/24] fix: a panic while reading from a websocket connection
 closes it instead of ending the process

---
 znet/ws_connection.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index 12babfb..f585814 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -211,6 +211,11 @@ func (c *WsConnection) StartReader() {
 	zlog.Ins().InfoF("[Reader Goroutine is running]")
 	defer zlog.Ins().InfoF("%s [conn Reader exit!]", c.RemoteAddr().String())
 	defer c.Stop()
+	defer func() {
+		if err := recover(); err != nil {
+			zlog.Ins().ErrorF("connID=%d, panic err=%v", c.GetConnID(), err)
+		}
+	}()
 
 	// Create a pack-unpack object. (创建拆包解包的对象)
 	for {
-- 
2.43.0


From 612bece1ab0124547d0f5d487830415b13c6b381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:58 +0000
Subject: [PATCH 14/24] fix: HeartbeatChecker.Stop could block forever,
 deadlocking connection teardown

Stop sent on an unbuffered channel: called by a finalizer that holds the
connection's message lock while the checker waits for that lock in SendMsg,
neither could go on; called twice, or from the checker itself, it blocked.
---
 znet/heartbeat.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/znet/heartbeat.go b/znet/heartbeat.go
index b625b60..c2bbd2a 100644
--- a/znet/heartbeat.go
+++ b/znet/heartbeat.go
@@ -55,7 +55,7 @@ func notAliveDefaultFunc(conn ziface.IConnection) {
 func NewHeartbeatChecker(interval time.Duration) ziface.IHeartbeatChecker {
 	heartbeat := &HeartbeatChecker{
 		interval: interval,
-		quitChan: make(chan bool),
+		quitChan: make(chan bool, 1),
 
 		// Use default heartbeat message generation function and remote connection not alive handling method
 		// (均使用默认的心跳消息生成函数和远程连接不存活时的处理方法)
@@ -121,7 +121,12 @@ func (h *HeartbeatChecker) Start() {
 
 func (h *HeartbeatChecker) Stop() {
 	zlog.Ins().InfoF("heartbeat checker stop, connID=%+v", h.conn.GetConnID())
-	h.quitChan <- true
+	// Never wait for the checking goroutine: it may itself be waiting for the connection that is being closed
+	// (不等待检测协程：它可能正在等待当前要关闭的连接)
+	select {
+	case h.quitChan <- true:
+	default:
+	}
 }
 
 func (h *HeartbeatChecker) SendHeartBeatMsg() error {
@@ -167,7 +172,7 @@ func (h *HeartbeatChecker) Clone() ziface.IHeartbeatChecker {
 
 	heartbeat := &HeartbeatChecker{
 		interval:         h.interval,
-		quitChan:         make(chan bool),
+		quitChan:         make(chan bool, 1),
 		beatFunc:         h.beatFunc,
 		makeMsg:          h.makeMsg,
 		onRemoteNotAlive: h.onRemoteNotAlive,
-- 
2.43.0


From fd96909fb8a7c4d84e60b0c7d7ac03379461f6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:58 +0000
Subject: [PATCH 15/24] fix: set the activity time before starting the
 heartbeat checker

The checker was started before the first updateActivity, so its first check
could see the zero time and report a connection that had just been made.
---
 znet/connection.go     | 2 +-
 znet/kcp_connection.go | 2 +-
 znet/ws_connection.go  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/znet/connection.go b/znet/connection.go
index 34c282b..760e90d 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -307,8 +307,8 @@ func (c *Connection) Start() {
 
 	// Start heartbeating detection
 	if c.hc != nil {
-		c.hc.Start()
 		c.updateActivity()
+		c.hc.Start()
 	}
 
 	// 占用workerid
diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index e42183e..03c07f2 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -288,8 +288,8 @@ func (c *KcpConnection) Start() {
 
 	// Start heartbeating detection
 	if c.hc != nil {
-		c.hc.Start()
 		c.updateActivity()
+		c.hc.Start()
 	}
 
 	// 占用workerid
diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index f585814..bb1b61a 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -291,8 +291,8 @@ func (c *WsConnection) Start() {
 	// Start the heartbeat check
 	// (启动心跳检测)
 	if c.hc != nil {
-		c.hc.Start()
 		c.updateActivity()
+		c.hc.Start()
 	}
 
 	// 占用workerid
-- 
2.43.0


From 0ad45728a3de6239129d22b6fbff02f3f814192e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:40 +0000
Subject: [PATCH 16/24] fix: a panicking connection hook no longer leaves the
 connection half started or half closed

A panic in OnConnStart left the connection open, managed and unread (and ended
the process for websocket); one in OnConnStop skipped closing the socket,
removal from the manager, the close callbacks and the return of the worker.
---
 znet/connection.go     | 15 +++++++++++++++
 znet/kcp_connection.go | 15 +++++++++++++++
 znet/ws_connection.go  | 15 +++++++++++++++
 3 files changed, 45 insertions(+)

diff --git a/znet/connection.go b/znet/connection.go
index 760e90d..6edf88e 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -532,6 +532,14 @@ func (c *Connection) finalizer() {
 
 func (c *Connection) callOnConnStart() {
 	if c.onConnStart != nil {
+		// A panicking hook closes the connection instead of leaving it half started
+		// (钩子方法panic时关闭连接，避免连接停留在半启动状态)
+		defer func() {
+			if err := recover(); err != nil {
+				zlog.Ins().ErrorF("connID=%d, OnConnStart panic err=%v", c.connID, err)
+				c.Stop()
+			}
+		}()
 		zlog.Ins().InfoF("ZINX CallOnConnStart....")
 		c.onConnStart(c)
 	}
@@ -539,6 +547,13 @@ func (c *Connection) callOnConnStart() {
 
 func (c *Connection) callOnConnStop() {
 	if c.onConnStop != nil {
+		// A panicking hook must not keep the rest of the teardown from running
+		// (钩子方法panic时，剩余的清理流程仍需执行)
+		defer func() {
+			if err := recover(); err != nil {
+				zlog.Ins().ErrorF("connID=%d, OnConnStop panic err=%v", c.connID, err)
+			}
+		}()
 		zlog.Ins().InfoF("ZINX CallOnConnStop....")
 		c.onConnStop(c)
 	}
diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index 03c07f2..8369098 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -534,6 +534,14 @@ func (c *KcpConnection) finalizer() {
 
 func (c *KcpConnection) callOnConnStart() {
 	if c.onConnStart != nil {
+		// A panicking hook closes the connection instead of leaving it half started
+		// (钩子方法panic时关闭连接，避免连接停留在半启动状态)
+		defer func() {
+			if err := recover(); err != nil {
+				zlog.Ins().ErrorF("connID=%d, OnConnStart panic err=%v", c.connID, err)
+				c.Stop()
+			}
+		}()
 		zlog.Ins().DebugF("ZINX CallOnConnStart....")
 		c.onConnStart(c)
 	}
@@ -541,6 +549,13 @@ func (c *KcpConnection) callOnConnStart() {
 
 func (c *KcpConnection) callOnConnStop() {
 	if c.onConnStop != nil {
+		// A panicking hook must not keep the rest of the teardown from running
+		// (钩子方法panic时，剩余的清理流程仍需执行)
+		defer func() {
+			if err := recover(); err != nil {
+				zlog.Ins().ErrorF("connID=%d, OnConnStop panic err=%v", c.connID, err)
+			}
+		}()
 		zlog.Ins().DebugF("ZINX CallOnConnStop....")
 		c.onConnStop(c)
 	}
diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index bb1b61a..006aacf 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -553,6 +553,14 @@ func (c *WsConnection) finalizer() {
 
 func (c *WsConnection) callOnConnStart() {
 	if c.onConnStart != nil {
+		// A panicking hook closes the connection instead of leaving it half started
+		// (钩子方法panic时关闭连接，避免连接停留在半启动状态)
+		defer func() {
+			if err := recover(); err != nil {
+				zlog.Ins().ErrorF("connID=%d, OnConnStart panic err=%v", c.connID, err)
+				c.Stop()
+			}
+		}()
 		zlog.Ins().InfoF("ZINX CallOnConnStart....")
 		c.onConnStart(c)
 	}
@@ -560,6 +568,13 @@ func (c *WsConnection) callOnConnStart() {
 
 func (c *WsConnection) callOnConnStop() {
 	if c.onConnStop != nil {
+		// A panicking hook must not keep the rest of the teardown from running
+		// (钩子方法panic时，剩余的清理流程仍需执行)
+		defer func() {
+			if err := recover(); err != nil {
+				zlog.Ins().ErrorF("connID=%d, OnConnStop panic err=%v", c.connID, err)
+			}
+		}()
 		zlog.Ins().InfoF("ZINX CallOnConnStop....")
 		c.onConnStop(c)
 	}
-- 
2.43.0


From 73e39486e9c41b1b94c68b1876f54c2f27a71c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:40 +0000
Subject: [PATCH 17/24] fix: stopping a connection that has not started yet
 panicked

A connection is in its manager before Start has set its cancel function, so
ClearConn (server stop) could call a nil function.
---
 znet/connection.go     | 6 ++++++
 znet/kcp_connection.go | 6 ++++++
 znet/ws_connection.go  | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/znet/connection.go b/znet/connection.go
index 6edf88e..f33d2fd 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -331,6 +331,12 @@ func (c *Connection) Start() {
 // Stop stops the connection and ends the current connection state.
 // (停止连接，结束当前连接状态)
 func (c *Connection) Stop() {
+	// Not started yet: close the socket, the reader then ends the connection as soon as it starts
+	// (连接尚未启动: 关闭socket，连接启动后Reader会立即结束该连接)
+	if c.cancel == nil {
+		_ = c.conn.Close()
+		return
+	}
 	c.cancel()
 }
 
diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index 8369098..a564060 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -312,6 +312,12 @@ func (c *KcpConnection) Start() {
 // Stop stops the connection and ends the current connection state.
 // (停止连接，结束当前连接状态)
 func (c *KcpConnection) Stop() {
+	// Not started yet: close the socket, the reader then ends the connection as soon as it starts
+	// (连接尚未启动: 关闭socket，连接启动后Reader会立即结束该连接)
+	if c.cancel == nil {
+		_ = c.conn.Close()
+		return
+	}
 	c.cancel()
 }
 
diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index 006aacf..c4f04d9 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -315,6 +315,12 @@ func (c *WsConnection) Start() {
 // Stop stops the connection and ends its current state.
 // (停止连接，结束当前连接状态)
 func (c *WsConnection) Stop() {
+	// Not started yet: close the socket, the reader then ends the connection as soon as it starts
+	// (连接尚未启动: 关闭socket，连接启动后Reader会立即结束该连接)
+	if c.cancel == nil {
+		_ = c.conn.Close()
+		return
+	}
 	c.cancel()
 }
 
-- 
2.43.0


From 18e28743671d43ad9dbef1791615a214fafb45a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:41 +0000
Subject: [PATCH 18/24] fix: TCP buffered sends around Start and Stop could end
 the process

Before Start the writer was started without a context and dereferenced nil;
after Stop every sender closed the message channel, so the second close or a
concurrent send panicked.
---
 znet/connection.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/znet/connection.go b/znet/connection.go
index f33d2fd..2f8616f 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -406,6 +406,10 @@ func (c *Connection) SendBuf(data []byte) error {
 
 func (c *Connection) SendToQueue(data []byte) error {
 
+	if c.isClosed() == true {
+		return errors.New("Connection closed when send buff msg")
+	}
+
 	if c.msgBuffChan == nil && c.setStartWriterFlag() {
 		c.msgBuffChan = make(chan []byte, zconf.GlobalObject.MaxMsgChanLen)
 		// Start a Goroutine to write data back to the client
@@ -418,10 +422,6 @@ func (c *Connection) SendToQueue(data []byte) error {
 	idleTimeout := time.NewTimer(5 * time.Millisecond)
 	defer idleTimeout.Stop()
 
-	if c.isClosed() == true {
-		return errors.New("Connection closed when send buff msg")
-	}
-
 	if data == nil {
 		zlog.Ins().ErrorF("Pack data is nil")
 		return errors.New("Pack data is nil")
@@ -430,8 +430,6 @@ func (c *Connection) SendToQueue(data []byte) error {
 	// Send timeout
 	select {
 	case <-c.ctx.Done():
-		// Close all channels associated with the connection
-		close(c.msgBuffChan)
 		return errors.New("connection closed when send buff msg")
 	case <-idleTimeout.C:
 		return errors.New("send buff msg timeout")
-- 
2.43.0


From a5d165c52e1824b8e1edb7ff21c5184aeb0b7350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:41 +0000
Subject: [PATCH 19/24] fix: a buffered frame could be split by a direct send

bufio writes the part of a frame that fits and keeps the rest, so a concurrent
Send put its own frame into the middle of the buffered one.
---
 znet/connection.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/znet/connection.go b/znet/connection.go
index 2f8616f..31f5883 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -396,6 +396,14 @@ func (c *Connection) SendBuf(data []byte) error {
 	if c.isClosed() == true {
 		return errors.New("connection closed when send msg")
 	}
+	// Do not let the buffer split a frame, a direct Send could write between its two parts
+	// (避免缓冲区将一帧拆成两次写入，否则Send的数据可能插入其中)
+	if c.bufWriter.Buffered() > 0 && len(data) > c.bufWriter.Available() {
+		if err := c.bufWriter.Flush(); err != nil {
+			zlog.Ins().ErrorF("SendMsg err data = %+v, err = %+v", data, err)
+			return err
+		}
+	}
 	_, err := c.bufWriter.Write(data)
 	if err != nil {
 		zlog.Ins().ErrorF("SendMsg err data = %+v, err = %+v", data, err)
-- 
2.43.0


From 70024bed4007b77b6b49203348f6a4455629a42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:05 +0000
Subject: [PATCH 20/24] fix: KCP buffered sends could lose frames or end the
 process, websocket ones end it before Start

The KCP message channel was created without a write lock, so two first senders
made two channels and frames on the lost one were never written; SendBuffMsg
could send on the channel the finalizer had closed. Before Start the writer
dereferenced a nil context (KCP and websocket client).
---
 znet/kcp_connection.go | 38 ++++++++++++++++----------------------
 znet/ws_connection.go  |  8 ++++++++
 2 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index a564060..67d962b 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -370,9 +370,11 @@ func (c *KcpConnection) Send(data []byte) error {
 	return nil
 }
 
-func (c *KcpConnection) SendToQueue(data []byte) error {
-	c.msgLock.RLock()
-	defer c.msgLock.RUnlock()
+// startWriter creates the message channel and starts its writer on first use
+// (首次使用时创建消息管道并启动写协程)
+func (c *KcpConnection) startWriter() {
+	c.msgLock.Lock()
+	defer c.msgLock.Unlock()
 
 	if c.msgBuffChan == nil {
 		c.msgBuffChan = make(chan []byte, zconf.GlobalObject.MaxMsgChanLen)
@@ -382,6 +384,16 @@ func (c *KcpConnection) SendToQueue(data []byte) error {
 		// 此方法只读取MsgBuffChan中的数据没调用SendBuffMsg可以分配内存和启用协程)
 		go c.StartWriter()
 	}
+}
+
+func (c *KcpConnection) SendToQueue(data []byte) error {
+	if c.isClosed() || c.ctx == nil {
+		return errors.New("Connection closed when send buff msg")
+	}
+	c.startWriter()
+
+	c.msgLock.RLock()
+	defer c.msgLock.RUnlock()
 
 	idleTimeout := time.NewTimer(5 * time.Millisecond)
 	defer idleTimeout.Stop()
@@ -430,31 +442,13 @@ func (c *KcpConnection) SendBuffMsg(msgID uint32, data []byte) error {
 	if c.isClosed() {
 		return errors.New("connection closed when send buff msg")
 	}
-	if c.msgBuffChan == nil {
-		c.msgBuffChan = make(chan []byte, zconf.GlobalObject.MaxMsgChanLen)
-		// Start a Goroutine to write data back to the client
-		// This method only reads data from the MsgBuffChan without allocating memory or starting a Goroutine
-		// (开启用于写回客户端数据流程的Goroutine
-		// 此方法只读取MsgBuffChan中的数据没调用SendBuffMsg可以分配内存和启用协程)
-		go c.StartWriter()
-	}
-
-	idleTimeout := time.NewTimer(5 * time.Millisecond)
-	defer idleTimeout.Stop()
-
 	msg, err := c.packet.Pack(zpack.NewMsgPackage(msgID, data))
 	if err != nil {
 		zlog.Ins().ErrorF("Pack error msg ID = %d", msgID)
 		return errors.New("Pack error msg ")
 	}
 
-	// send timeout
-	select {
-	case <-idleTimeout.C:
-		return errors.New("send buff msg timeout")
-	case c.msgBuffChan <- msg:
-		return nil
-	}
+	return c.SendToQueue(msg)
 }
 
 func (c *KcpConnection) SetProperty(key string, value interface{}) {
diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index c4f04d9..2847ef4 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -377,6 +377,10 @@ func (c *WsConnection) SendToQueue(data []byte) error {
 	c.msgLock.Lock()
 	defer c.msgLock.Unlock()
 
+	if c.ctx == nil {
+		return errors.New("WsConnection not started when send buff msg")
+	}
+
 	if c.msgBuffChan == nil {
 		c.msgBuffChan = make(chan []byte, zconf.GlobalObject.MaxMsgChanLen)
 		// Start a goroutine for writing data back to the client,
@@ -438,6 +442,10 @@ func (c *WsConnection) SendBuffMsg(msgID uint32, data []byte) error {
 	c.msgLock.Lock()
 	defer c.msgLock.Unlock()
 
+	if c.ctx == nil {
+		return errors.New("WsConnection not started when send buff msg")
+	}
+
 	if c.msgBuffChan == nil {
 		c.msgBuffChan = make(chan []byte, zconf.GlobalObject.MaxMsgChanLen)
 		// Start the Goroutine for writing back to the client data stream
-- 
2.43.0


From 4ac4ba9d9ebc21dd251699bacfaba56ec955132a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:39 +0000
Subject: [PATCH 21/24] fix: publish an async result before its callback can be
 handed over

The flag hasReturnedObj was raised before the value was stored, so a
concurrent OnComplete could hand the callback over without a result; and
completeFunc was read by another goroutine without synchronisation.
---
 zasync_op/async_op_result.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zasync_op/async_op_result.go b/zasync_op/async_op_result.go
index 27b8284..1cdd591 100644
--- a/zasync_op/async_op_result.go
+++ b/zasync_op/async_op_result.go
@@ -37,6 +37,8 @@ func (aor *AsyncOpResult) GetReturnedObj() interface{} {
 func (aor *AsyncOpResult) SetReturnedObj(val interface{}) {
 	if atomic.CompareAndSwapInt32(&aor.hasReturnedObj, 0, 1) {
 		aor.returnedObj = val
+		// Only now may the callback be handed over (结果写入之后才能触发回调)
+		atomic.StoreInt32(&aor.hasReturnedObj, 2)
 		// **** 防止未调用回调函数问题: 设置处理结果时，直接调用回调函数：1.回调函数未绑定，调用空；2.回调函数已绑定,立马调用 ****
 		// **** Prevent the problem of not calling the completion callback function:
 		// Call the callback function directly when setting the processing result:
@@ -50,12 +52,13 @@ func (aor *AsyncOpResult) SetReturnedObj(val interface{}) {
 func (aor *AsyncOpResult) OnComplete(val func()) {
 	if atomic.CompareAndSwapInt32(&aor.hasCompleteFunc, 0, 1) {
 		aor.completeFunc = val
+		atomic.StoreInt32(&aor.hasCompleteFunc, 2)
 
 		// **** 防止未调用回调函数问题:设置回调函数时，发现已经有处理结果了，直接调用 ****
 		// **** Prevent the problem of not calling the completion callback function:
 		// If a processing result already exists when setting the callback function,
 		// call the callback function directly. ****
-		if atomic.LoadInt32(&aor.hasReturnedObj) == 1 {
+		if atomic.LoadInt32(&aor.hasReturnedObj) == 2 {
 			aor.doComplete()
 		}
 	}
@@ -64,7 +67,7 @@ func (aor *AsyncOpResult) OnComplete(val func()) {
 // doComplete executes the completion callback function, double-checking when setting the processing result and callback function to prevent the possibility of not calling the callback function
 // (执行完成回调,在设置处理结果和回调函数的时候双重检查，杜绝未调用回调函数的可能性)
 func (aor *AsyncOpResult) doComplete() {
-	if aor.completeFunc == nil {
+	if atomic.LoadInt32(&aor.hasCompleteFunc) != 2 || aor.completeFunc == nil {
 		return
 	}
 
-- 
2.43.0


From b4ca9215d27e489d1589f47c202d3f08067b8150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:52 +0000
Subject: [PATCH 22/24] fix: the level and file flags of a log header do not
 depend on the time flags

---
 zlog/logger_core.go | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/zlog/logger_core.go b/zlog/logger_core.go
index 143e64c..4e616f3 100644
--- a/zlog/logger_core.go
+++ b/zlog/logger_core.go
@@ -165,31 +165,31 @@ func (log *ZinxLoggerCore) formatHeader(t time.Time, file string, line int, leve
 			}
 			buf.WriteByte(' ')
 		}
+	}
 
-		// Log level flag is set
-		if log.flag&BitLevel != 0 {
-			buf.WriteString(levels[level])
-		}
+	// Log level flag is set
+	if log.flag&BitLevel != 0 {
+		buf.WriteString(levels[level])
+	}
 
-		// Short file name flag or long file name flag is set
-		if log.flag&(BitShortFile|BitLongFile) != 0 {
-			// Short file name flag is set
-			if log.flag&BitShortFile != 0 {
-				short := file
-				for i := len(file) - 1; i > 0; i-- {
-					if file[i] == '/' {
-						// Get the file name after the last '/' character, e.g. "zinx.go" from "/home/go/src/zinx.go"
-						short = file[i+1:]
-						break
-					}
+	// Short file name flag or long file name flag is set
+	if log.flag&(BitShortFile|BitLongFile) != 0 {
+		// Short file name flag is set
+		if log.flag&BitShortFile != 0 {
+			short := file
+			for i := len(file) - 1; i > 0; i-- {
+				if file[i] == '/' {
+					// Get the file name after the last '/' character, e.g. "zinx.go" from "/home/go/src/zinx.go"
+					short = file[i+1:]
+					break
 				}
-				file = short
 			}
-			buf.WriteString(file)
-			buf.WriteByte(':')
-			itoa(buf, line, -1) // line number
-			buf.WriteString(": ")
+			file = short
 		}
+		buf.WriteString(file)
+		buf.WriteByte(':')
+		itoa(buf, line, -1) // line number
+		buf.WriteString(": ")
 	}
 }
 
-- 
2.43.0


From c1deef2c8604b73e8868215b72e295236c82dace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:53 +0000
Subject: [PATCH 23/24] fix: an empty log message is terminated by a newline
 too

---
 zlog/logger_core.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zlog/logger_core.go b/zlog/logger_core.go
index 4e616f3..ae1119b 100644
--- a/zlog/logger_core.go
+++ b/zlog/logger_core.go
@@ -220,7 +220,7 @@ func (log *ZinxLoggerCore) OutPut(level int, s string) error {
 	// write log content
 	log.buf.WriteString(s)
 	// add line break
-	if len(s) > 0 && s[len(s)-1] != '\n' {
+	if len(s) == 0 || s[len(s)-1] != '\n' {
 		log.buf.WriteByte('\n')
 	}
 
-- 
2.43.0


From 029224f40d11641db20f5f9291d98a36d99a2766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:27 +0000
Subject: [PATCH 24/24] fix: a timer whose deadline exceeds the representable
 time no longer fires at once

NewTimerAfter added the duration to the current time without regard to
overflow: a very long duration (math.MaxInt64 as "never") wrapped around
into the past and the timer fired immediately. The deadline is now clamped.
---
 ztimer/timer.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ztimer/timer.go b/ztimer/timer.go
index 00a3199..8db8ede 100644
--- a/ztimer/timer.go
+++ b/ztimer/timer.go
@@ -7,6 +7,7 @@ package ztimer
  */
 
 import (
+	"math"
 	"time"
 )
 
@@ -68,7 +69,13 @@ func NewTimerAt(df *DelayFunc, unixNano int64) *Timer {
 
 // NewTimerAfter 创建一个定时器，在当前时间延迟duration之后触发 定时器方法
 func NewTimerAfter(df *DelayFunc, duration time.Duration) *Timer {
-	return NewTimerAt(df, time.Now().UnixNano()+int64(duration))
+	now := time.Now().UnixNano()
+	// A deadline beyond the representable time must not wrap around into the past
+	// (超出可表示范围的时间不能溢出成过去的时间)
+	if int64(duration) > math.MaxInt64-now {
+		return NewTimerAt(df, math.MaxInt64)
+	}
+	return NewTimerAt(df, now+int64(duration))
 }
 
 // Run 启动定时器，用一个go承载
-- 
2.43.0

