From c53ad04ccfa1c927fddb46966cfca0ae621c5990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 01/10] fix: a mget reply with a number flag but no number made
 the parser loop forever or eat the next reply

---
 memcache/parser.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/memcache/parser.go b/memcache/parser.go
index f24cbe7..a7c112a 100644
--- a/memcache/parser.go
+++ b/memcache/parser.go
@@ -134,13 +134,16 @@ func isDigit(c byte) bool {
 func findNumber(data []byte, index int) (uint64, int) {
 	foundIndex := -1
 	var firstChar byte
-	for i := index; i < len(data); i++ {
+	for i := index; i < len(data) && data[i] != '\r'; i++ {
 		if isDigit(data[i]) {
 			foundIndex = i
 			firstChar = data[i]
 			break
 		}
 	}
+	if foundIndex < 0 {
+		return 0, -1 // no number on this line
+	}
 
 	num := uint64(firstChar - '0')
 
@@ -182,6 +185,9 @@ func (p *parser) parseMGetFlags(index int, resp *MGetResponse) (int, error) {
 		}
 		if p.data[i] == 'c' {
 			cas, nextIndex := findNumber(p.data, i+1)
+			if nextIndex < 0 {
+				return 0, ErrInvalidMGet
+			}
 			resp.CAS = cas
 			i = nextIndex - 1
 			continue
@@ -214,6 +220,9 @@ func (p *parser) readMGetHD() (MGetResponse, error) {
 
 func (p *parser) readMGetVA() (MGetResponse, error) {
 	_, index := findNumber(p.data, 3)
+	if index < 0 {
+		return MGetResponse{}, ErrInvalidMGet
+	}
 
 	resp := MGetResponse{
 		Type: MGetResponseTypeVA,
-- 
2.43.0


From 7a9835487a50e644794a7395e73ab45de5862219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 02/10] fix: reading a flush_all reply from exhausted reply
 data panicked

---
 memcache/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/memcache/parser.go b/memcache/parser.go
index a7c112a..4e8f693 100644
--- a/memcache/parser.go
+++ b/memcache/parser.go
@@ -434,6 +434,10 @@ func (p *parser) readFlushAllWithCRLF() error {
 }
 
 func (p *parser) readFlushAll() error {
+	if len(p.data) < 2 {
+		return ErrInvalidResponse
+	}
+
 	if p.prefixEqual('O', 'K') {
 		return p.readFlushAllWithCRLF()
 	}
-- 
2.43.0


From 826d60db410e492c3908c8cf085e780602df71a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 03/10] fix: an error reply without a message swallowed the
 following reply

---
 memcache/parser.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/memcache/parser.go b/memcache/parser.go
index 4e8f693..43e03e5 100644
--- a/memcache/parser.go
+++ b/memcache/parser.go
@@ -255,13 +255,16 @@ const (
 
 func (p *parser) readError(errType errorType) error {
 	index := len(serverErrorPrefix)
-	crlfIndex := p.findCRLF(index + 1)
+	crlfIndex := p.findCRLF(index)
 	if crlfIndex < 0 {
 		return ErrInvalidResponse
 	}
 
-	data := make([]byte, crlfIndex-2-index-1)
-	copy(data, p.data[index+1:])
+	var data []byte
+	if index+1 < crlfIndex-2 {
+		data = make([]byte, crlfIndex-2-index-1)
+		copy(data, p.data[index+1:])
+	}
 
 	p.skipData(crlfIndex)
 
-- 
2.43.0


From 251b9ef1ce92f63ec9d33561c850798a9dda4308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 04/10] fix: an oversized value length sent by the server
 panicked the receiver goroutine

---
 memcache/reader.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/memcache/reader.go b/memcache/reader.go
index dbe3906..76fa407 100644
--- a/memcache/reader.go
+++ b/memcache/reader.go
@@ -47,6 +47,11 @@ var errNoLFAfterCR = ErrBrokenPipe{reason: "no LF after CR"}
 
 var errNotNumberAfterVA = ErrBrokenPipe{reason: "not a number after VA"}
 
+var errValueTooLarge = ErrBrokenPipe{reason: "value size too large"}
+
+// maxValueSize is the biggest item size that can be configured for a memcached server
+const maxValueSize = 1 << 30
+
 func (r *responseReader) writeResponse(data []byte) {
 	r.currentCmd.responseData = append(r.currentCmd.responseData, data...)
 }
@@ -162,6 +167,9 @@ func (r *responseReader) handleGetNum(data []byte) []byte {
 		for i := 1; i < n; i++ {
 			r.dataLen *= 10
 			r.dataLen += uint64(r.tmpData[i] - '0')
+			if r.dataLen > maxValueSize {
+				return r.setErrorAndReturn(errValueTooLarge)
+			}
 		}
 
 		r.currentBinary = getByteSlice(r.dataLen)
-- 
2.43.0


From 221385cf62c1c33fef8035e78409a63d9ee5c921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 05/10] fix: commands after an undecodable reply were given
 misaligned replies

---
 memcache/pipeline.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/memcache/pipeline.go b/memcache/pipeline.go
index 3fc564e..357cfb5 100644
--- a/memcache/pipeline.go
+++ b/memcache/pipeline.go
@@ -107,7 +107,14 @@ func parseCommandsForSingleCommandData(
 		return
 	}
 
+	var undecodableErr error
 	for _, cmd := range pipelineCommands {
+		if undecodableErr != nil {
+			// replies can no longer be matched to commands
+			cmd.err = undecodableErr
+			continue
+		}
+
 		switch cmd.cmdType {
 		case commandTypeMGet:
 			resp, err := ps.readMGet()
@@ -137,7 +144,11 @@ func parseCommandsForSingleCommandData(
 			if IsServerError(cmd.err) {
 				continue
 			}
+			_, undecodable := cmd.err.(ErrBrokenPipe)
 			cmd.err = currentCmd.conn.setLastErrorAndClose(cmd.err)
+			if undecodable {
+				undecodableErr = cmd.err
+			}
 		}
 	}
 }
-- 
2.43.0


From 6597b043523d4a20bed8e21243af8f359ac8e759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 06/10] fix: bytes left over from a broken connection answered
 commands of the next connection

---
 memcache/core.go   | 7 +++++++
 memcache/reader.go | 1 +
 2 files changed, 8 insertions(+)

diff --git a/memcache/core.go b/memcache/core.go
index 07bc230..4173b23 100644
--- a/memcache/core.go
+++ b/memcache/core.go
@@ -17,6 +17,8 @@ type coreConnection struct {
 	// job data
 	msgData []byte
 	cmdList *cmdListReader
+
+	readerConn *senderConnection // connection that responseReader has bytes of
 }
 
 func newCoreConnection(nc netconn.NetConn, options *memcacheOptions) *coreConnection {
@@ -78,6 +80,11 @@ func (c *coreConnection) recvSingleCommandData(inc *increaseReadCount) error {
 	}
 
 	current := c.cmdList.current()
+	if current.conn != c.readerConn {
+		// never use bytes left over from a previous connection
+		c.readerConn = current.conn
+		c.responseReader.reset()
+	}
 	c.responseReader.setCurrentCommand(current)
 
 	for count := 0; count < current.cmdCount; count++ {
diff --git a/memcache/reader.go b/memcache/reader.go
index 76fa407..93e30d6 100644
--- a/memcache/reader.go
+++ b/memcache/reader.go
@@ -310,4 +310,5 @@ func (r *responseReader) reset() {
 	r.tmpData = r.tmpData[:]
 	r.state = readerStateInit
 	r.lastErr = nil
+	r.remainingData = nil
 }
-- 
2.43.0


From 8bb2df5eb9361b73b1496c72c779ba37e8f02794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 07/10] fix: a pipeline of several batches published after
 close never completed

---
 memcache/sender.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/memcache/sender.go b/memcache/sender.go
index b6a4266..cd0a7ea 100644
--- a/memcache/sender.go
+++ b/memcache/sender.go
@@ -263,7 +263,11 @@ func (s *sender) sendToWriter() (closed bool) {
 func (s *sender) publish(cmd *commandListData) {
 	closed := s.sendBuf.push(cmd)
 	if closed {
-		cmd.setCompleted(ErrConnClosed)
+		for cmd != nil {
+			sibling := cmd.sibling
+			cmd.setCompleted(ErrConnClosed)
+			cmd = sibling
+		}
 	}
 }
 
-- 
2.43.0


From 143362ec7fe06d5cca1838fb80327065dc2f6e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 08/10] fix: sender and receiver deadlocked when a connection
 failed while the receive buffer was full

---
 memcache/sender.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/memcache/sender.go b/memcache/sender.go
index cd0a7ea..7e13942 100644
--- a/memcache/sender.go
+++ b/memcache/sender.go
@@ -221,21 +221,21 @@ func clearCmdList(cmdList []*commandListData) []*commandListData {
 	return cmdList[:0]
 }
 
-func (s *sender) writeAndFlush() {
-	if s.conn.getLastErrorInternal() != nil {
+func (s *sender) writeAndFlush(conn *senderConnection) {
+	if conn.getLastErrorInternal() != nil {
 		return
 	}
 
 	for _, cmd := range s.tmpBuf {
-		if err := cmd.writeToWriter(s.conn.writer); err != nil {
-			_ = s.conn.setLastErrorAndCloseUnsafe(err)
+		if err := cmd.writeToWriter(conn.writer); err != nil {
+			_ = conn.setLastErrorAndCloseUnsafe(err)
 			return
 		}
 	}
 
-	err := s.conn.writer.Flush()
+	err := conn.writer.Flush()
 	if err != nil {
-		_ = s.conn.setLastErrorAndCloseUnsafe(err)
+		_ = conn.setLastErrorAndCloseUnsafe(err)
 		return
 	}
 }
@@ -244,15 +244,20 @@ func (s *sender) sendToWriter() (closed bool) {
 	s.tmpBuf, closed = s.selector.readCommands(s.tmpBuf)
 
 	s.connMut.Lock()
+	conn := s.conn
+	s.connMut.Unlock()
 
 	for _, cmd := range s.tmpBuf {
-		cmd.conn = s.conn
+		cmd.conn = conn
 	}
 
+	// connMut must not be held here: push waits for the receiver when the buffer is full,
+	// and the receiver needs connMut when the connection is broken
 	s.recv.push(s.tmpBuf)
 
 	// flush to tcp socket
-	s.writeAndFlush()
+	s.connMut.Lock()
+	s.writeAndFlush(conn)
 
 	s.tmpBuf = clearCmdList(s.tmpBuf)
 	s.connMut.Unlock()
-- 
2.43.0


From 7cd2ea9d97a96d9deed7e7b1a1737834d44d89c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 09/10] fix: a dial that failed to set keep alive leaked the
 connection

---
 memcache/netconn/netconn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/memcache/netconn/netconn.go b/memcache/netconn/netconn.go
index 2a456a3..26a1a60 100644
--- a/memcache/netconn/netconn.go
+++ b/memcache/netconn/netconn.go
@@ -109,9 +109,11 @@ func DialNewConn(addr string, options ...Option) (NetConn, error) {
 	tcpNetConn, ok := nc.(*net.TCPConn)
 	if ok {
 		if err := tcpNetConn.SetKeepAlive(true); err != nil {
+			_ = nc.Close()
 			return NetConn{}, err
 		}
 		if err := tcpNetConn.SetKeepAlivePeriod(conf.tcpKeepAliveDuration); err != nil {
+			_ = nc.Close()
 			return NetConn{}, err
 		}
 	}
-- 
2.43.0


From fb0c8456a6f2c118f03095ddc9d872c63fbf2e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 10/10] fix: a metadump cut off before END was reported as
 complete

---
 memcache/stats/stats.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/memcache/stats/stats.go b/memcache/stats/stats.go
index d93c031..7bcc468 100644
--- a/memcache/stats/stats.go
+++ b/memcache/stats/stats.go
@@ -2,6 +2,7 @@ package stats
 
 import (
 	"bufio"
+	"io"
 	"log"
 	"net/url"
 	"strconv"
@@ -498,7 +499,10 @@ func (c *Client) MetaDumpAll(scanFunc func(key MetaDumpKey)) error {
 		}
 		scanFunc(key)
 	}
-	return c.scanner.Err()
+	if err := c.scanner.Err(); err != nil {
+		return err
+	}
+	return io.EOF // connection ended before END
 }
 
 type statItem struct {
-- 
2.43.0

