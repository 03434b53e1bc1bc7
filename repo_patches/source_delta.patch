From 4ce312d6efac8e5f1b9ffb254b5bc1a2d2f2c288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:16 +0000
Subject: [PATCH 01/44] fix: reset the payload length of control frames

---
 conn_write.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conn_write.go b/conn_write.go
index 4f94f19..b61e410 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -315,6 +315,7 @@ func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
 	// write header and payload
 	cw.buf = cw.buf[:2]
 	cw.buf[0] = 0x80 + opcode
+	cw.buf[1] = 0 // the buffer still holds the length of the previous control frame
 
 	if isMasked {
 		b, err := cw.conn.nRead(4)
-- 
2.43.0


From 61d2dff3c19471ad7317e90466b124d313e817d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:37 +0000
Subject: [PATCH 02/44] fix: a flush that could not lock the connection can be
 retried

---
 conn_write.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/conn_write.go b/conn_write.go
index b61e410..7f7ebf9 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -138,16 +138,17 @@ func (w *ConnWriter) flush(FIN bool) error {
 		opcode = OpcodeContinuation
 	}
 
-	err := w.writeHeaders(FIN, opcode)
+	// locking before writing the headers, so the flush can be retried if locking fails.
+	err := w.conn.writeLock.lockCtx(w.ctx)
 	if err != nil {
 		return err
 	}
+	defer w.conn.writeLock.unLock()
 
-	err = w.conn.writeLock.lockCtx(w.ctx)
+	err = w.writeHeaders(FIN, opcode)
 	if err != nil {
 		return err
 	}
-	defer w.conn.writeLock.unLock()
 
 	if err = w.conn.raw.SetWriteDeadline(time.Now().Add(w.conn.upgrader.WriteWait)); err != nil {
 		w.conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
-- 
2.43.0


From 3565ef74be43bea707b21e521f9c36cf0523e71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:39 +0000
Subject: [PATCH 03/44] fix: close the connection without holding the write
 lock when a write fails

---
 broadcast.go  | 15 ++++++++-------
 conn_write.go | 12 ++++++------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/broadcast.go b/broadcast.go
index 6d2c35c..b0a2806 100755
--- a/broadcast.go
+++ b/broadcast.go
@@ -25,16 +25,17 @@ func (m *frame) writeToConn(conn *Conn) error {
 	if err := conn.writeLock.lockCtx(m.ctx); err != nil {
 		return err
 	}
-	defer conn.writeLock.unLock()
 
 	// set deadline
-	if err := conn.raw.SetWriteDeadline(time.Now().Add(conn.upgrader.WriteWait)); err != nil {
-		conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
-		return fatal(err)
+	err := conn.raw.SetWriteDeadline(time.Now().Add(conn.upgrader.WriteWait))
+	if err == nil {
+		// send frame
+		err = conn.sendFrame(m.buf)
 	}
-
-	// send frame
-	if err := conn.sendFrame(m.buf); err != nil {
+	// closing the connection takes the write lock, so it must be released first.
+	conn.writeLock.unLock()
+	if err != nil {
+		conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 		return fatal(err)
 	}
 
diff --git a/conn_write.go b/conn_write.go
index 7f7ebf9..494b0f0 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -143,19 +143,19 @@ func (w *ConnWriter) flush(FIN bool) error {
 	if err != nil {
 		return err
 	}
-	defer w.conn.writeLock.unLock()
 
 	err = w.writeHeaders(FIN, opcode)
 	if err != nil {
+		w.conn.writeLock.unLock()
 		return err
 	}
 
-	if err = w.conn.raw.SetWriteDeadline(time.Now().Add(w.conn.upgrader.WriteWait)); err != nil {
-		w.conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
-		return fatal(err)
+	err = w.conn.raw.SetWriteDeadline(time.Now().Add(w.conn.upgrader.WriteWait))
+	if err == nil {
+		err = w.conn.sendFrame(w.buf[w.start:w.used])
 	}
-
-	err = w.conn.sendFrame(w.buf[w.start:w.used])
+	// closing the connection takes the write lock, so it must be released first.
+	w.conn.writeLock.unLock()
 	if err != nil {
 		w.conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 		return fatal(err)
-- 
2.43.0


From f546cb45b05407f4dc6b2adc31d01839fb8acd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:55 +0000
Subject: [PATCH 04/44] fix: write nothing after a frame that was written
 partially

---
 conn_write.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/conn_write.go b/conn_write.go
index 494b0f0..4532ae7 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -185,6 +185,10 @@ func (w *ConnWriter) Close() error {
 // The fucntion doesnt close the connection on error.
 func (conn *Conn) sendFrame(buf []byte) error {
 	_, err := conn.raw.Write(buf)
+	if err != nil {
+		// a part of the frame may have been written, nothing can follow it.
+		conn.raw.Close()
+	}
 
 	return err
 }
-- 
2.43.0


From eec955edde68c69f83104a5d46fdbcdfbbe9b036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 05/44] fix: closing does not touch a writer that is in use

---
 conn.go       | 12 ++++++------
 conn_utils.go |  9 +++++++++
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index e8a55ef..a45aded 100755
--- a/conn.go
+++ b/conn.go
@@ -201,18 +201,18 @@ func (conn *Conn) CloseWithCode(code uint16, reason string) {
 			conn.ticker.Stop()
 		}
 
-		// close the current writer (if exists) and put the buffer back to the pool (if exists).
-		conn.writer.Close()
-		if conn.writer.pb != nil && !conn.upgrader.DisableWriteBuffersPooling {
-			conn.upgrader.writePool.Put(conn.writer.pb)
-		}
-
 		// close the done channel inditicating that the connection is closed
 		close(conn.done)
 
 		// writer a close frame.
 		conn.controlWriter.writeClose(code, reason)
 
+		// put the write buffer back to the pool (if exists), unless a writer is still using it.
+		// The lock is never released, because there are no more writes.
+		if conn.writer.lock.tryLock() && conn.writer.pb != nil && !conn.upgrader.DisableWriteBuffersPooling {
+			conn.upgrader.writePool.Put(conn.writer.pb)
+		}
+
 		// run hooks.
 		if conn.upgrader.OnDisconnect != nil {
 			conn.upgrader.OnDisconnect(conn)
diff --git a/conn_utils.go b/conn_utils.go
index 66cee43..b520c94 100755
--- a/conn_utils.go
+++ b/conn_utils.go
@@ -52,6 +52,15 @@ func (m *mu) forceLock() {
 	m.ch <- struct{}{}
 }
 
+func (m *mu) tryLock() bool {
+	select {
+	case m.ch <- struct{}{}:
+		return true
+	default:
+		return false
+	}
+}
+
 func (m *mu) unLock() {
 	<-m.ch
 }
-- 
2.43.0


From a58597d3f437c4122bad8962fa9c67c1fd770df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:20 +0000
Subject: [PATCH 06/44] fix: a closed writer can not end the message of another
 writer

---
 conn_write.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conn_write.go b/conn_write.go
index 4532ae7..bd6b7a3 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -76,9 +76,11 @@ func (conn *Conn) NextWriter(ctx context.Context, msgType uint8) (*ConnWriter, e
 		return nil, err
 	}
 
-	conn.writer.reset(ctx, msgType)
+	// each message gets its own handle, so a closed one can't affect the next messages.
+	w := *conn.writer
+	w.reset(ctx, msgType)
 
-	return conn.writer, nil
+	return &w, nil
 }
 
 // Write appends bytes to the writer buffer and flushes if full.
-- 
2.43.0


From ab50f8c9c520a18c7ca00e65f221b0131ef11948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:23 +0000
Subject: [PATCH 07/44] fix: a failed send neither keeps the writer locked nor
 completes the message

---
 conn_batcher.go |  3 +--
 conn_write.go   | 23 ++++++++++++++++++-----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/conn_batcher.go b/conn_batcher.go
index a1e99de..363e81e 100755
--- a/conn_batcher.go
+++ b/conn_batcher.go
@@ -141,8 +141,7 @@ func (b *messageBatch) sendWrapper(messages [][]byte, encoder batchEncoder) erro
 	err = encoder(w, messages, p, s)
 	if err != nil {
 		fmt.Println(err)
-		w.Close()
-		return err
+		return w.release(err)
 	}
 
 	return w.Close()
diff --git a/conn_write.go b/conn_write.go
index bd6b7a3..94034fb 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -173,14 +173,27 @@ func (w *ConnWriter) flush(FIN bool) error {
 // Close flushes the final frame and releases the writer lock.
 func (w *ConnWriter) Close() error {
 	if !w.closed {
-		defer w.lock.tryUnlock()
-		defer func() { w.closed = true }()
 		err := w.flush(true)
-		return err
+		return w.release(err)
 	}
 	return nil
 }
 
+// release closes the writer and releases its lock.
+// If err isn't nil the message is incomplete: when a part of it has already been sent,
+// the connection gets closed and the returned error is fatal.
+func (w *ConnWriter) release(err error) error {
+	if err != nil && w.flushCount > 0 && !IsFatalErr(err) {
+		w.conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
+		err = fatal(err)
+	}
+	if !w.closed {
+		w.closed = true
+		w.lock.unLock()
+	}
+	return err
+}
+
 // sendFrame writes a prepared frame to the underlying connection.
 // This function is for internal library use.
 // All non-nil errors returned are fatal.
@@ -212,7 +225,7 @@ func (conn *Conn) SendMessage(ctx context.Context, opcode uint8, b []byte) error
 
 	_, err = w.Write(b)
 	if err != nil {
-		return err
+		return w.release(err)
 	}
 
 	return w.Close()
@@ -258,7 +271,7 @@ func (conn *Conn) SendJSON(ctx context.Context, v any) error {
 
 	err = json.NewEncoder(w).Encode(v)
 	if err != nil {
-		return err
+		return w.release(err)
 	}
 
 	return w.Close()
-- 
2.43.0


From d646d8f38e32bffa719f8ce20c59beb6b689d524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:08 +0000
Subject: [PATCH 08/44] fix: a broadcast does not interrupt a message that is
 being written

---
 broadcast.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/broadcast.go b/broadcast.go
index b0a2806..1da47c2 100755
--- a/broadcast.go
+++ b/broadcast.go
@@ -21,6 +21,12 @@ type frame struct {
 // Here we will send the frame directly (in one syscall) without copying to user buffer (without facing the possibility of fragmenting it).
 // This will save us syscalls and copies.
 func (m *frame) writeToConn(conn *Conn) error {
+	// The frame is a message of its own, wait till there is no message being written.
+	if err := conn.writer.lock.lockCtx(m.ctx); err != nil {
+		return err
+	}
+	defer conn.writer.lock.unLock()
+
 	// Acquire write lock
 	if err := conn.writeLock.lockCtx(m.ctx); err != nil {
 		return err
-- 
2.43.0


From ffa2e5a5339f1682c01fb60517e48ff8025944be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:11 +0000
Subject: [PATCH 09/44] fix: closing always closes the underlying connection

---
 conn_write.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/conn_write.go b/conn_write.go
index 94034fb..9f98c0a 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -376,9 +376,6 @@ func (cw *ControlWriter) writeClose(closeCode uint16, reason string) {
 
 	// set deadline
 	err := cw.conn.raw.SetWriteDeadline(time.Now().Add(cw.conn.upgrader.WriteWait))
-	if err != nil {
-		return
-	}
 
 	cw.buf = cw.buf[:4]
 	cw.buf[0] = 0x80 + OpcodeClose
@@ -391,6 +388,8 @@ func (cw *ControlWriter) writeClose(closeCode uint16, reason string) {
 
 	// lock without unlocking because this is the last write.
 	cw.conn.writeLock.forceLock()
-	cw.conn.sendFrame(cw.buf)
+	if err == nil {
+		cw.conn.sendFrame(cw.buf)
+	}
 	cw.conn.raw.Close()
 }
-- 
2.43.0


From 46e3e66ce51d1db67c43d69b9de0d5c3f270ab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:14 +0000
Subject: [PATCH 10/44] fix: control frames do not share a timer

---
 conn.go       |  1 -
 conn_write.go | 13 +++++--------
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/conn.go b/conn.go
index a45aded..9f252e6 100755
--- a/conn.go
+++ b/conn.go
@@ -124,7 +124,6 @@ type ControlWriter struct {
 	maskKey [4]byte
 	err     chan error
 	lock    *mu
-	t       *time.Timer
 }
 
 func (conn *Conn) newControlWriter() *ControlWriter {
diff --git a/conn_write.go b/conn_write.go
index 9f98c0a..af9f483 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -314,14 +314,11 @@ func (conn *Conn) pong(n int, isMasked bool) error {
 // All errors must be considered fatal, and the connection must be closed manually.
 // this function doesnt close the connection.
 func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
-	if cw.t == nil {
-		cw.t = time.NewTimer(cw.conn.upgrader.WriteWait)
-	} else {
-		cw.t.Reset(cw.conn.upgrader.WriteWait)
-	}
-	defer cw.t.Stop()
+	// not shared, because control frames are written by many goroutines.
+	t := time.NewTimer(cw.conn.upgrader.WriteWait)
+	defer t.Stop()
 
-	err := cw.lock.lockTimer(cw.t)
+	err := cw.lock.lockTimer(t)
 	if err != nil {
 		return err
 	}
@@ -355,7 +352,7 @@ func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
 		cw.buf = append(cw.buf, payload...)
 	}
 
-	if err := cw.conn.writeLock.lockTimer(cw.t); err != nil {
+	if err := cw.conn.writeLock.lockTimer(t); err != nil {
 		return err
 	}
 	defer cw.conn.writeLock.unLock()
-- 
2.43.0


From d32cced5a374b20c34b714db71de3940c51eddd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:17 +0000
Subject: [PATCH 11/44] fix: the ping loop ends when the connection closes

---
 conn.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/conn.go b/conn.go
index 9f252e6..6dc782d 100755
--- a/conn.go
+++ b/conn.go
@@ -34,7 +34,6 @@ type Conn struct {
 	onCloseMu sync.Mutex
 
 	// for ping loop
-	ticker      *time.Ticker
 	pingSent    atomic.Bool
 	pingPayload []byte
 
@@ -141,13 +140,18 @@ func (conn *Conn) newControlWriter() *ControlWriter {
 // Ping the client every "PingEvery" provided from the manager.
 // If pinging fails the connection closes.
 func (conn *Conn) pingLoop() {
-	if conn.ticker == nil {
-		conn.ticker = time.NewTicker(conn.upgrader.PingEvery)
-	}
-	for range conn.ticker.C {
-		if err := conn.Ping(); err != nil && err != ErrPingAlreadySent {
-			conn.CloseWithCode(ClosePolicyViolation, err.Error())
+	ticker := time.NewTicker(conn.upgrader.PingEvery)
+	defer ticker.Stop()
+
+	for {
+		select {
+		case <-conn.done:
 			return
+		case <-ticker.C:
+			if err := conn.Ping(); err != nil && err != ErrPingAlreadySent {
+				conn.CloseWithCode(ClosePolicyViolation, err.Error())
+				return
+			}
 		}
 	}
 }
@@ -196,10 +200,6 @@ func (conn *Conn) handlePong(n int, isMasked bool) error {
 // CloseWithCode closes the connection with the given code and reason.
 func (conn *Conn) CloseWithCode(code uint16, reason string) {
 	conn.closeOnce.Do(func() {
-		if conn.ticker != nil {
-			conn.ticker.Stop()
-		}
-
 		// close the done channel inditicating that the connection is closed
 		close(conn.done)
 
-- 
2.43.0


From 96c34b8daedd3c8bfd69f3995b8be4ff78286581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:46 +0000
Subject: [PATCH 12/44] fix: hooks can close the connection that runs them

---
 conn.go | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/conn.go b/conn.go
index 6dc782d..8d82af6 100755
--- a/conn.go
+++ b/conn.go
@@ -199,7 +199,10 @@ func (conn *Conn) handlePong(n int, isMasked bool) error {
 
 // CloseWithCode closes the connection with the given code and reason.
 func (conn *Conn) CloseWithCode(code uint16, reason string) {
+	first := false
 	conn.closeOnce.Do(func() {
+		first = true
+
 		// close the done channel inditicating that the connection is closed
 		close(conn.done)
 
@@ -212,26 +215,31 @@ func (conn *Conn) CloseWithCode(code uint16, reason string) {
 			conn.upgrader.writePool.Put(conn.writer.pb)
 		}
 
-		// run hooks.
-		if conn.upgrader.OnDisconnect != nil {
-			conn.upgrader.OnDisconnect(conn)
-		}
+	})
+	if !first {
+		return
+	}
 
-		conn.onCloseMu.Lock()
-		if conn.onClose != nil {
-			conn.onClose()
-		}
-		conn.onCloseMu.Unlock()
+	// remove from rate limiter if exists
+	if conn.upgrader.Limiter != nil {
+		conn.upgrader.Limiter.removeClient(conn)
+	}
 
-		// remove from rate limiter if exists
-		if conn.upgrader.Limiter != nil {
-			conn.upgrader.Limiter.removeClient(conn)
-		}
+	if conn.upgrader.Flusher != nil {
+		conn.upgrader.Flusher.remove(conn)
+	}
 
-		if conn.upgrader.Flusher != nil {
-			conn.upgrader.Flusher.remove(conn)
-		}
-	})
+	// run hooks. (not inside closeOnce nor while locking onCloseMu, because hooks may close the connection)
+	if conn.upgrader.OnDisconnect != nil {
+		conn.upgrader.OnDisconnect(conn)
+	}
+
+	conn.onCloseMu.Lock()
+	onClose := conn.onClose
+	conn.onCloseMu.Unlock()
+	if onClose != nil {
+		onClose()
+	}
 }
 
 // This function is called upon receiving a close frame from the client.
-- 
2.43.0


From 76b365ccdd59a830b52a9a11969a6130d6e7357d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:24 +0000
Subject: [PATCH 13/44] fix: a closed connection leaves the flusher it was
 added to

---
 conn.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 8d82af6..c5be3fc 100755
--- a/conn.go
+++ b/conn.go
@@ -225,8 +225,9 @@ func (conn *Conn) CloseWithCode(code uint16, reason string) {
 		conn.upgrader.Limiter.removeClient(conn)
 	}
 
-	if conn.upgrader.Flusher != nil {
-		conn.upgrader.Flusher.remove(conn)
+	// remove from the flusher it was added to, the upgrader's one may have been replaced.
+	if conn.batch != nil {
+		conn.batch.flusher.remove(conn)
 	}
 
 	// run hooks. (not inside closeOnce nor while locking onCloseMu, because hooks may close the connection)
-- 
2.43.0


From c556e259f3d583100d7b33f8058253af4f1f7a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:27 +0000
Subject: [PATCH 14/44] fix: a closing connection leaves all its rooms and its
 manager

---
 conn.go          | 29 ++++++++++++++++++++++-------
 rooms_manager.go | 13 +++++++------
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/conn.go b/conn.go
index c5be3fc..32c8be9 100755
--- a/conn.go
+++ b/conn.go
@@ -27,7 +27,8 @@ type Conn struct {
 	// would receive ok=false, indicating that the channel is closed => conn is closed.
 	done      chan struct{}
 	closeOnce sync.Once
-	onClose   func()
+	// callbacks to run when the conn closes, by what they belong to (a room or a manager's entry).
+	onClose map[any]func()
 	// onCloseMu protects concurrent access to onClose callbacks.
 	// This prevents race conditions when connections move between rooms
 	// and multiple goroutines try to set/call onClose simultaneously.
@@ -107,11 +108,9 @@ type ManagedConn[KeyType comparable] struct {
 }
 
 func (m *Manager[KeyType]) newManagedConn(conn *Conn, key KeyType) *ManagedConn[KeyType] {
-	conn.onCloseMu.Lock()
-	defer conn.onCloseMu.Unlock()
-	conn.onClose = func() {
+	conn.setOnClose(m, func() {
 		m.unregister(key)
-	}
+	})
 	return &ManagedConn[KeyType]{Conn: conn, Key: key, Manager: m}
 }
 
@@ -237,10 +236,26 @@ func (conn *Conn) CloseWithCode(code uint16, reason string) {
 
 	conn.onCloseMu.Lock()
 	onClose := conn.onClose
+	conn.onClose = nil
 	conn.onCloseMu.Unlock()
-	if onClose != nil {
-		onClose()
+	for _, callback := range onClose {
+		callback()
+	}
+}
+
+// setOnClose sets the callback of the given owner, nil removes it.
+func (conn *Conn) setOnClose(owner any, callback func()) {
+	conn.onCloseMu.Lock()
+	defer conn.onCloseMu.Unlock()
+
+	if callback == nil {
+		delete(conn.onClose, owner)
+		return
+	}
+	if conn.onClose == nil {
+		conn.onClose = make(map[any]func())
 	}
+	conn.onClose[owner] = callback
 }
 
 // This function is called upon receiving a close frame from the client.
diff --git a/rooms_manager.go b/rooms_manager.go
index e7e01aa..09d9174 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -230,14 +230,11 @@ func (r *Room[keyType]) Close() {
 func (r *Room[keyType]) Add(conn *Conn, args ...any) {
 	r.mu.Lock()
 	r.conns[conn] = true
-	r.mu.Unlock()
-
 	// Set up automatic cleanup when connection closes
-	conn.onCloseMu.Lock()
-	conn.onClose = func() {
+	conn.setOnClose(r, func() {
 		r.Remove(conn, args...)
-	}
-	conn.onCloseMu.Unlock()
+	})
+	r.mu.Unlock()
 
 	conn.enableBroadcasting()
 	// calling onJoin hook
@@ -255,6 +252,7 @@ func (r *Room[keyType]) Add(conn *Conn, args ...any) {
 func (r *Room[keyType]) Remove(conn *Conn, args ...any) {
 	r.mu.Lock()
 	delete(r.conns, conn)
+	conn.setOnClose(r, nil)
 	r.mu.Unlock()
 
 	// calling onLeave hook
@@ -271,6 +269,9 @@ func (r *Room[keyType]) RemoveAll() {
 	r.mu.Lock()
 	conns := r.conns               // copy
 	r.conns = make(map[*Conn]bool) // empty
+	for c := range conns {
+		c.setOnClose(r, nil)
+	}
 	r.mu.Unlock()
 
 	// calling hook
-- 
2.43.0


From 00dd1dcc2b05edcaa9b68fcfdbcb2a6f50d7af7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:30 +0000
Subject: [PATCH 15/44] fix: adding a member to or removing a non-member from a
 room is a no-op

---
 rooms_manager.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rooms_manager.go b/rooms_manager.go
index 09d9174..8963e67 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -229,6 +229,10 @@ func (r *Room[keyType]) Close() {
 // If the connection is already in the room, this is a no-op.
 func (r *Room[keyType]) Add(conn *Conn, args ...any) {
 	r.mu.Lock()
+	if r.conns[conn] {
+		r.mu.Unlock()
+		return
+	}
 	r.conns[conn] = true
 	// Set up automatic cleanup when connection closes
 	conn.setOnClose(r, func() {
@@ -251,6 +255,10 @@ func (r *Room[keyType]) Add(conn *Conn, args ...any) {
 // Thread-safe: Multiple goroutines can call this concurrently.
 func (r *Room[keyType]) Remove(conn *Conn, args ...any) {
 	r.mu.Lock()
+	if !r.conns[conn] {
+		r.mu.Unlock()
+		return
+	}
 	delete(r.conns, conn)
 	conn.setOnClose(r, nil)
 	r.mu.Unlock()
-- 
2.43.0


From 1264e095abdf5551a678ad867fbbfd518fcfa8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:33 +0000
Subject: [PATCH 16/44] fix: emptying a room without a leave hook

---
 rooms_manager.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rooms_manager.go b/rooms_manager.go
index 8963e67..d2ff8fd 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -283,8 +283,10 @@ func (r *Room[keyType]) RemoveAll() {
 	r.mu.Unlock()
 
 	// calling hook
-	for c := range conns {
-		r.OnLeave(r, c)
+	if r.OnLeave != nil {
+		for c := range conns {
+			r.OnLeave(r, c)
+		}
 	}
 }
 
-- 
2.43.0


From d221d24ef5b94362e9520e19f590b7f988bba3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:36 +0000
Subject: [PATCH 17/44] fix: a connection that is already closed does not stay
 in a room

---
 rooms_manager.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rooms_manager.go b/rooms_manager.go
index d2ff8fd..d0c324e 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -245,6 +245,13 @@ func (r *Room[keyType]) Add(conn *Conn, args ...any) {
 	if r.OnJoin != nil {
 		r.OnJoin(r, conn, args...)
 	}
+
+	// the connection may have closed before its cleanup was set up.
+	select {
+	case <-conn.done:
+		r.Remove(conn, args...)
+	default:
+	}
 }
 
 // Remove removes a connection from the room.
-- 
2.43.0


From 2f541a4a3cdc4c713425b821505e0c9a49b4342f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:25 +0000
Subject: [PATCH 18/44] fix: a connection has one broadcast queue, made before
 it can be broadcast to

---
 conn.go          | 11 +++++------
 manager.go       |  4 +++-
 rooms_manager.go |  4 +++-
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/conn.go b/conn.go
index 32c8be9..9803616 100755
--- a/conn.go
+++ b/conn.go
@@ -44,6 +44,7 @@ type Conn struct {
 	writeLock     *mu
 	readBuf       *bufio.Reader
 
+	broadcastOnce  sync.Once
 	broadcastQueue chan message
 
 	batch *messageBatch
@@ -89,13 +90,11 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 }
 
 func (conn *Conn) enableBroadcasting() {
-	if conn.broadcastQueue != nil {
-		return
-	}
+	conn.broadcastOnce.Do(func() {
+		conn.broadcastQueue = make(chan message, conn.upgrader.BroadcastChannelsSize)
 
-	conn.broadcastQueue = make(chan message, conn.upgrader.BroadcastChannelsSize)
-
-	go conn.broadcastListener()
+		go conn.broadcastListener()
+	})
 }
 
 // ManagedConn is a Conn that is tracked by a Manager.
diff --git a/manager.go b/manager.go
index b0706a2..f592b07 100755
--- a/manager.go
+++ b/manager.go
@@ -70,6 +70,9 @@ func (m *Manager[KeyType]) Connect(key KeyType, w http.ResponseWriter, r *http.R
 // If the key already exists, it will close the connection associated with the key,
 // and replace it with the new connection received by the fucntion.
 func (m *Manager[KeyType]) Register(key KeyType, conn *ManagedConn[KeyType]) {
+	// before it can be found in the manager, so broadcasts always find the queue.
+	conn.enableBroadcasting()
+
 	m.mu.Lock()
 	if conn, ok := m.conns[key]; ok {
 		conn.raw.Close()
@@ -77,7 +80,6 @@ func (m *Manager[KeyType]) Register(key KeyType, conn *ManagedConn[KeyType]) {
 	m.conns[key] = conn
 	m.mu.Unlock()
 
-	conn.enableBroadcasting()
 	if m.OnRegister != nil {
 		m.OnRegister(conn)
 	}
diff --git a/rooms_manager.go b/rooms_manager.go
index d0c324e..79f9b5e 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -228,6 +228,9 @@ func (r *Room[keyType]) Close() {
 // Thread-safe: Multiple goroutines can call this concurrently.
 // If the connection is already in the room, this is a no-op.
 func (r *Room[keyType]) Add(conn *Conn, args ...any) {
+	// before it can be found in the room, so broadcasts always find the queue.
+	conn.enableBroadcasting()
+
 	r.mu.Lock()
 	if r.conns[conn] {
 		r.mu.Unlock()
@@ -240,7 +243,6 @@ func (r *Room[keyType]) Add(conn *Conn, args ...any) {
 	})
 	r.mu.Unlock()
 
-	conn.enableBroadcasting()
 	// calling onJoin hook
 	if r.OnJoin != nil {
 		r.OnJoin(r, conn, args...)
-- 
2.43.0


From a2b1e603605ca0b2d5612647dd696b12d5118c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 19/44] fix: a replaced connection does not unregister the one
 that replaced it

---
 conn.go    |  3 ---
 manager.go | 17 ++++++++++++-----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/conn.go b/conn.go
index 9803616..bd27251 100755
--- a/conn.go
+++ b/conn.go
@@ -107,9 +107,6 @@ type ManagedConn[KeyType comparable] struct {
 }
 
 func (m *Manager[KeyType]) newManagedConn(conn *Conn, key KeyType) *ManagedConn[KeyType] {
-	conn.setOnClose(m, func() {
-		m.unregister(key)
-	})
 	return &ManagedConn[KeyType]{Conn: conn, Key: key, Manager: m}
 }
 
diff --git a/manager.go b/manager.go
index f592b07..e3bc468 100755
--- a/manager.go
+++ b/manager.go
@@ -74,23 +74,30 @@ func (m *Manager[KeyType]) Register(key KeyType, conn *ManagedConn[KeyType]) {
 	conn.enableBroadcasting()
 
 	m.mu.Lock()
-	if conn, ok := m.conns[key]; ok {
-		conn.raw.Close()
+	old := m.conns[key]
+	if old != nil && old != conn {
+		old.raw.Close()
 	}
 	m.conns[key] = conn
+	// only this entry, the key may be registered for another connection by then.
+	conn.setOnClose([2]any{m, key}, func() {
+		m.unregister(key, conn)
+	})
 	m.mu.Unlock()
 
+	if old != nil && old != conn && m.OnUnregister != nil {
+		m.OnUnregister(old)
+	}
 	if m.OnRegister != nil {
 		m.OnRegister(conn)
 	}
 }
 
 // only to be called bt conn.Close(), dont use it manually.
-func (m *Manager[KeyType]) unregister(id KeyType) error {
+func (m *Manager[KeyType]) unregister(id KeyType, conn *ManagedConn[KeyType]) error {
 	m.mu.Lock()
 
-	conn, ok := m.conns[id]
-	if !ok {
+	if current, ok := m.conns[id]; !ok || current != conn {
 		m.mu.Unlock()
 		return ErrConnNotFound
 	}
-- 
2.43.0


From 43b85da815532b5ed52f14fb7c9904d57f67b77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 20/44] fix: a connection that is already closed does not stay
 registered

---
 manager.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/manager.go b/manager.go
index e3bc468..05fcb9c 100755
--- a/manager.go
+++ b/manager.go
@@ -91,6 +91,13 @@ func (m *Manager[KeyType]) Register(key KeyType, conn *ManagedConn[KeyType]) {
 	if m.OnRegister != nil {
 		m.OnRegister(conn)
 	}
+
+	// the connection may have closed before its cleanup was set up.
+	select {
+	case <-conn.done:
+		m.unregister(key, conn)
+	default:
+	}
 }
 
 // only to be called bt conn.Close(), dont use it manually.
-- 
2.43.0


From b158ea88f5bce9af2ad64dd247b161ae0aea1124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:22 +0000
Subject: [PATCH 21/44] fix: manager shutdown deadlocked on its own lock

---
 manager.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/manager.go b/manager.go
index 05fcb9c..011a1eb 100755
--- a/manager.go
+++ b/manager.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"maps"
 	"net/http"
 	"slices"
 	"sync"
@@ -210,10 +211,12 @@ func (m *Manager[KeyType]) BroadcastJSON(ctx context.Context, v interface{}, exc
 // - Closes all connections normaly.
 // - Clears the conns map.
 func (m *Manager[KeyType]) Shutdown() {
-	m.mu.Lock()
-	defer m.mu.Unlock()
+	// closing a connection unregisters it and runs hooks, so the lock can't be held meanwhile.
+	m.mu.RLock()
+	conns := maps.Clone(m.conns)
+	m.mu.RUnlock()
 
-	workers := (len(m.conns) / 5) + 2
+	workers := (len(conns) / 5) + 2
 	var wg sync.WaitGroup
 	ch := make(chan *ManagedConn[KeyType], workers)
 
@@ -227,14 +230,16 @@ func (m *Manager[KeyType]) Shutdown() {
 		}()
 	}
 
-	conns := m.GetAllConns()
 	for _, conn := range conns {
 		ch <- conn
 	}
 	close(ch)
 	wg.Wait()
 
-	m.conns = make(map[KeyType]*ManagedConn[KeyType])
+	// connections that were being closed by someone else may not be unregistered yet.
+	for key, conn := range conns {
+		m.unregister(key, conn)
+	}
 }
 
 // BatchBroadcast loops over the manager's connections and adds the given data into their batch.
-- 
2.43.0


From 9aa4c4c8bf1fef0d7c177ee96e79beff10948d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 22/44] fix: room manager shutdown deadlocked with hooks

---
 rooms_manager.go | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/rooms_manager.go b/rooms_manager.go
index 79f9b5e..6dcdc64 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -171,18 +171,20 @@ func (rm *RoomManager[keyType]) GetRoomKeys() []keyType {
 //
 // After calling Shutdown, the RoomManager should not be used.
 func (rm *RoomManager[keyType]) Shutdown() {
+	// closing a connection runs hooks, so no lock can be held meanwhile.
 	rm.mu.Lock()
-	defer rm.mu.Unlock()
+	rooms := rm.rooms
+	rm.rooms = make(map[keyType]*Room[keyType])
+	rm.mu.Unlock()
 
-	connsCount := 0
-	for _, r := range rm.rooms {
-		r.mu.Lock()
-		connsCount += len(r.conns)
+	conns := make([]*Conn, 0)
+	for _, r := range rooms {
+		conns = append(conns, r.GetAllConns()...)
 	}
 
 	var wg sync.WaitGroup
-	workers := (connsCount / 5) + 2
-	ch := make(chan *Conn, connsCount)
+	workers := (len(conns) / 5) + 2
+	ch := make(chan *Conn, len(conns))
 
 	for range workers {
 		wg.Add(1)
@@ -194,16 +196,11 @@ func (rm *RoomManager[keyType]) Shutdown() {
 		}()
 	}
 
-	for _, r := range rm.rooms {
-		for c := range r.conns {
-			ch <- c
-		}
-		r.mu.Unlock()
+	for _, c := range conns {
+		ch <- c
 	}
 
 	close(ch)
-	rm.rooms = make(map[keyType]*Room[keyType])
-
 	wg.Wait()
 }
 
-- 
2.43.0


From 0faf80f3390b1ef693100484eaa01180f3cbe5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:28 +0000
Subject: [PATCH 23/44] fix: closing a closed room does not drop a newer room

---
 rooms_manager.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rooms_manager.go b/rooms_manager.go
index 6dcdc64..f6f489c 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -214,7 +214,10 @@ func (r *Room[keyType]) Close() {
 
 	r.rm.mu.Lock()
 	defer r.rm.mu.Unlock()
-	delete(r.rm.rooms, r.Key)
+	// the key may belong to a newer room if this one has already been closed.
+	if r.rm.rooms[r.Key] == r {
+		delete(r.rm.rooms, r.Key)
+	}
 }
 
 // Add adds a connection to the room.
-- 
2.43.0


From ee6fadc28597834d94958f70256eea1d3949ac0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:56 +0000
Subject: [PATCH 24/44] fix: a broadcast does not wait for a closed connection

---
 broadcast.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/broadcast.go b/broadcast.go
index 1da47c2..d373ed6 100755
--- a/broadcast.go
+++ b/broadcast.go
@@ -121,6 +121,7 @@ func (u *Upgrader) broadcast(ctx context.Context, conns []*Conn, opcode uint8, d
 				select {
 				case <-ctx.Done():
 					return n, ctx.Err()
+				case <-conn.done: // it will never be read
 				case conn.broadcastQueue <- m:
 					n++
 				}
@@ -176,6 +177,7 @@ func (u *Upgrader) batchBroadcast(ctx context.Context, conns []*Conn, data []byt
 					return n, u.Flusher.ctx.Err()
 				case <-ctx.Done():
 					return n, ctx.Err()
+				case <-conn.done: // it will never be read
 				case conn.broadcastQueue <- m:
 					n++
 				}
-- 
2.43.0


From 56062d65e4014186b3807fe5cb9bf913a77271fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:59 +0000
Subject: [PATCH 25/44] fix: batch broadcasts accept a nil context like the
 other broadcasts

---
 broadcast.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/broadcast.go b/broadcast.go
index d373ed6..5ae749e 100755
--- a/broadcast.go
+++ b/broadcast.go
@@ -149,6 +149,9 @@ func (u *Upgrader) batchBroadcast(ctx context.Context, conns []*Conn, data []byt
 	if u.Flusher == nil {
 		return 0, ErrBatchingUninitialized
 	}
+	if ctx == nil {
+		ctx = context.Background()
+	}
 
 	m := &batchMessage{buf: data}
 
-- 
2.43.0


From 903f849bd3b21fe517e389946080c179d5669291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:02 +0000
Subject: [PATCH 26/44] fix: -1 means no message size limit, limits are for
 data frames and do not overflow

---
 conn_read.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/conn_read.go b/conn_read.go
index da53a27..678b04f 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -92,11 +92,6 @@ func (conn *Conn) acceptFrame() (uint8, error) {
 			n = int(lengthB)
 		}
 
-		if n > conn.upgrader.MaxMessageSize {
-			conn.CloseWithCode(CloseMessageTooBig, ErrTooLargePayload.Error())
-			return nilOpcode, ErrTooLargePayload
-		}
-
 		// handling control frames
 		if isControl(opcode) {
 			if !fin || n > MaxControlFramePayload {
@@ -119,6 +114,12 @@ func (conn *Conn) acceptFrame() (uint8, error) {
 			continue
 		}
 
+		// -1 means there is no limit.
+		if conn.upgrader.MaxMessageSize >= 0 && n > conn.upgrader.MaxMessageSize {
+			conn.CloseWithCode(CloseMessageTooBig, ErrTooLargePayload.Error())
+			return nilOpcode, ErrTooLargePayload
+		}
+
 		// reseting conn.reader current frame info.
 		conn.reader.fin = fin
 		conn.reader.remaining = n
@@ -210,10 +211,13 @@ func (r *ConnReader) Read(p []byte) (n int, err error) {
 			r.conn.CloseWithCode(CloseProtocolError, ErrExpectedContinuation.Error())
 			return 0, fatal(ErrExpectedContinuation)
 		}
-		r.totalSize += r.remaining
-		if r.totalSize > r.conn.upgrader.MaxMessageSize {
-			r.conn.CloseWithCode(CloseMessageTooBig, ErrMessageTooLarge.Error())
-			return 0, fatal(ErrMessageTooLarge)
+		if limit := r.conn.upgrader.MaxMessageSize; limit >= 0 {
+			// can't overflow, because totalSize never exceeds the limit.
+			if r.remaining > limit-r.totalSize {
+				r.conn.CloseWithCode(CloseMessageTooBig, ErrMessageTooLarge.Error())
+				return 0, fatal(ErrMessageTooLarge)
+			}
+			r.totalSize += r.remaining
 		}
 	}
 
-- 
2.43.0


From 990dbeb56384601af2ed4042e195109f734c94d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:05 +0000
Subject: [PATCH 27/44] fix: the first frame of a message counts as a fragment

---
 conn_read.go  | 2 +-
 conn_utils.go | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/conn_read.go b/conn_read.go
index 678b04f..919a1e6 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -167,7 +167,7 @@ func (conn *Conn) NextReader() (io.Reader, uint8, error) {
 		return nil, nilOpcode, fatal(ErrInvalidOPCODE)
 	}
 
-	conn.reader.fragments = 0
+	conn.reader.fragments = 1 // the one that has just been read
 	conn.reader.totalSize = conn.reader.remaining
 
 	ok, err := conn.allow()
diff --git a/conn_utils.go b/conn_utils.go
index b520c94..b09cb3b 100755
--- a/conn_utils.go
+++ b/conn_utils.go
@@ -124,6 +124,11 @@ func (conn *Conn) skipRestOfMessage() error {
 	}
 
 	for !conn.reader.fin {
+		if conn.upgrader.ReaderMaxFragments > 0 && conn.reader.fragments >= conn.upgrader.ReaderMaxFragments {
+			conn.CloseWithCode(ClosePolicyViolation, ErrTooMuchFragments.Error())
+			return ErrTooMuchFragments
+		}
+
 		opcode, err := conn.acceptFrame()
 		if err != nil {
 			return err
-- 
2.43.0


From 8c020bc9f41ded47dcfd09305cff9f1ecb8c9e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:35 +0000
Subject: [PATCH 28/44] fix: reading the next message skips the rest of the
 previous one

---
 conn.go       | 2 +-
 conn_read.go  | 5 +++++
 conn_utils.go | 2 ++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index bd27251..019c1ce 100755
--- a/conn.go
+++ b/conn.go
@@ -76,7 +76,7 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 		}
 	}
 
-	conn.reader = ConnReader{conn: conn}
+	conn.reader = ConnReader{conn: conn, fin: true}
 	conn.writer = conn.newWriter(wb)
 	conn.controlWriter = conn.newControlWriter()
 
diff --git a/conn_read.go b/conn_read.go
index 919a1e6..a7da31a 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -157,6 +157,11 @@ func (conn *Conn) NextReader() (io.Reader, uint8, error) {
 		return nil, nilOpcode, fatal(err)
 	}
 
+	// the previous message may have not been read till its end.
+	if err = conn.skipRestOfMessage(); err != nil {
+		return nil, nilOpcode, fatal(err)
+	}
+
 	opcode, err := conn.acceptFrame()
 	if err != nil {
 		return nil, nilOpcode, fatal(err)
diff --git a/conn_utils.go b/conn_utils.go
index b09cb3b..812eae5 100755
--- a/conn_utils.go
+++ b/conn_utils.go
@@ -122,6 +122,7 @@ func (conn *Conn) skipRestOfMessage() error {
 		conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 		return err
 	}
+	conn.reader.remaining = 0
 
 	for !conn.reader.fin {
 		if conn.upgrader.ReaderMaxFragments > 0 && conn.reader.fragments >= conn.upgrader.ReaderMaxFragments {
@@ -143,6 +144,7 @@ func (conn *Conn) skipRestOfMessage() error {
 			conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 			return err
 		}
+		conn.reader.remaining = 0
 	}
 
 	return nil
-- 
2.43.0


From 0758795e813ae70296d32e2be562303905a20ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 29/44] fix: bytes returned together with an error are unmasked

---
 conn_read.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/conn_read.go b/conn_read.go
index a7da31a..e64bc5b 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -240,6 +240,9 @@ func (r *ConnReader) Read(p []byte) (n int, err error) {
 		rn, err := r.conn.readBuf.Read(p[n : n+toRead])
 		n += rn
 		r.remaining -= rn
+		if r.isMasked {
+			r.mask(p[n-rn : n])
+		}
 		if err == io.EOF {
 			// connection got closed
 			r.conn.CloseWithCode(CloseNormalClosure, "")
@@ -250,9 +253,6 @@ func (r *ConnReader) Read(p []byte) (n int, err error) {
 			return n, fatal(err)
 		}
 
-		if r.isMasked {
-			r.mask(p[n-rn : n])
-		}
 	}
 }
 
-- 
2.43.0


From 93a1970f68034450538f55109f26b5fb941e5a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 30/44] fix: the flusher could find a connection without a
 batch

---
 conn.go         | 2 +-
 conn_batcher.go | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/conn.go b/conn.go
index 019c1ce..2dde23f 100755
--- a/conn.go
+++ b/conn.go
@@ -81,7 +81,7 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 	conn.controlWriter = conn.newControlWriter()
 
 	if u.Flusher != nil {
-		conn.batch = u.Flusher.newBatch(conn)
+		u.Flusher.newBatch(conn)
 	}
 
 	go conn.pingLoop()
diff --git a/conn_batcher.go b/conn_batcher.go
index 363e81e..b729e1b 100755
--- a/conn_batcher.go
+++ b/conn_batcher.go
@@ -16,12 +16,14 @@ type messageBatch struct {
 }
 
 func (f *batchFlusher) newBatch(conn *Conn) *messageBatch {
-	f.add(conn)
-	return &messageBatch{
+	// set before adding, because the flusher uses it as soon as the conn is added.
+	conn.batch = &messageBatch{
 		messages: make([][]byte, 0),
 		conn:     conn,
 		flusher:  f,
 	}
+	f.add(conn)
+	return conn.batch
 }
 
 // Batch adds raw byte data to the current message batch.
-- 
2.43.0


From 103d21807230295dfc881c0d809745dd60fd30e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:23 +0000
Subject: [PATCH 31/44] fix: a connection is created after its handshake
 succeeded

---
 upgrader.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/upgrader.go b/upgrader.go
index 0ce1c74..d8f4888 100755
--- a/upgrader.go
+++ b/upgrader.go
@@ -104,11 +104,9 @@ func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request) (*Conn, error
 		return nil, err
 	}
 
-	p := brw.Writer.AvailableBuffer()
-	conn := u.newConn(c, subProtocol, brw.Reader, p)
-
 	// writing response
-	p = append(p, "HTTP/1.1 101 Switching Protocols\r\n"...)
+	wb := brw.Writer.AvailableBuffer()
+	p := append(wb, "HTTP/1.1 101 Switching Protocols\r\n"...)
 	p = append(p, "Upgrade: websocket\r\n"...)
 	p = append(p, "Connection: Upgrade\r\n"...)
 	p = append(p, "Sec-WebSocket-Accept: "...)
@@ -123,9 +121,13 @@ func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request) (*Conn, error
 
 	_, err = c.Write(p)
 	if err != nil {
+		c.Close()
 		return nil, err
 	}
 
+	// only now, because the conn starts pinging and accepts writes as soon as it's created.
+	conn := u.newConn(c, subProtocol, brw.Reader, wb)
+
 	if u.OnConnect != nil {
 		u.OnConnect(conn)
 	}
-- 
2.43.0


From 7ef4b5f9853a98e0a55a7926840e529cc28dca76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 32/44] fix: a connection is rate limited from its creation

---
 conn.go     | 5 +++++
 upgrader.go | 4 ----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index 2dde23f..3acc74d 100755
--- a/conn.go
+++ b/conn.go
@@ -84,6 +84,11 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 		u.Flusher.newBatch(conn)
 	}
 
+	// before the conn is used, so it's removed from the limiter whenever it closes.
+	if u.Limiter != nil {
+		u.Limiter.addClient(conn)
+	}
+
 	go conn.pingLoop()
 
 	return conn
diff --git a/upgrader.go b/upgrader.go
index d8f4888..3bf0f3e 100755
--- a/upgrader.go
+++ b/upgrader.go
@@ -132,10 +132,6 @@ func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request) (*Conn, error
 		u.OnConnect(conn)
 	}
 
-	if u.Limiter != nil {
-		u.Limiter.addClient(conn)
-	}
-
 	return conn, err
 }
 
-- 
2.43.0


From 79694604081d8bd6a7f3f976804340abbbb045bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:28 +0000
Subject: [PATCH 33/44] fix: handshake headers can be split over several lines

---
 upgrader.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/upgrader.go b/upgrader.go
index 3bf0f3e..c98d429 100755
--- a/upgrader.go
+++ b/upgrader.go
@@ -94,7 +94,7 @@ func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request) (*Conn, error
 	}
 
 	// computing key
-	hashedKey := sha1.Sum([]byte(r.Header.Get("Sec-WebSocket-Key") + GUID))
+	hashedKey := sha1.Sum([]byte(strings.TrimSpace(r.Header.Get("Sec-WebSocket-Key")) + GUID))
 	secAcceptKey := base64.StdEncoding.EncodeToString(hashedKey[:])
 
 	// hijacking connection
@@ -136,7 +136,7 @@ func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request) (*Conn, error
 }
 
 func validateConnectionHeader(r *http.Request) error {
-	rawHeader := r.Header.Get("Connection")
+	rawHeader := strings.Join(r.Header.Values("Connection"), ",")
 	if rawHeader == "" {
 		return ErrMissingConnectionHeader
 	}
@@ -153,7 +153,7 @@ func validateConnectionHeader(r *http.Request) error {
 }
 
 func validateUpgradeHeader(r *http.Request) error {
-	rawHeader := r.Header.Get("Upgrade")
+	rawHeader := strings.Join(r.Header.Values("Upgrade"), ",")
 	if rawHeader == "" {
 		return ErrMissingUpgradeHeader
 	}
@@ -199,7 +199,7 @@ func selectSubProtocol(r *http.Request, subProtocols []string) string {
 	if subProtocols == nil {
 		return ""
 	}
-	rawHeader := r.Header.Get("Sec-WebSocket-Protocol")
+	rawHeader := strings.Join(r.Header.Values("Sec-WebSocket-Protocol"), ",")
 	if rawHeader == "" {
 		return ""
 	}
-- 
2.43.0


From 907695768a46a6515d7db966a5a2e17b0edb9ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 34/44] fix: control frames fit in every read buffer

---
 conn.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index 3acc74d..ef6ee2a 100755
--- a/conn.go
+++ b/conn.go
@@ -61,14 +61,12 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 	}
 	conn.writeLock = newMu(conn)
 
-	size := u.ReadBufferSize
-	if (size == 0 && br != nil) || (br != nil && size == br.Size()) {
+	// control frames are read at once, so they must fit in the buffer.
+	size := max(u.ReadBufferSize, MaxControlFramePayload)
+	if br != nil && br.Size() >= MaxControlFramePayload && (u.ReadBufferSize == 0 || u.ReadBufferSize == br.Size()) {
 		conn.readBuf = br
 	} else {
-		if size < MaxHeaderSize {
-			size += MaxHeaderSize
-		}
-		if br.Buffered() > 0 && br != nil {
+		if br != nil && br.Buffered() > 0 {
 			// The client sent data before receiving the response.
 			conn.readBuf = bufio.NewReaderSize(&brNetConn{Conn: conn.raw, br: br}, size)
 		} else {
-- 
2.43.0


From d1a1edbe1c633ae6d94285596fad7a4f41aab740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 35/44] fix: write buffers have room for a frame header

---
 options.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/options.go b/options.go
index 8c3f0bc..6879a58 100755
--- a/options.go
+++ b/options.go
@@ -116,6 +116,9 @@ func (opt *Options) WithDefault() {
 	}
 	if opt.WriteBufferSize == 0 {
 		opt.WriteBufferSize = DefaultWriteBufferSize
+	} else if opt.WriteBufferSize <= MaxHeaderSize {
+		// a frame's header and at least one byte of its payload must fit.
+		opt.WriteBufferSize = max(opt.WriteBufferSize, 1) + MaxHeaderSize
 	}
 	if opt.BroadcastChannelsSize == 0 {
 		opt.BroadcastChannelsSize = DefaultBroadcastChannelsSize
-- 
2.43.0


From ae042b7a51484fe6fd274d94c84d4dcf0608e2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:07 +0000
Subject: [PATCH 36/44] fix: a pong can arrive as soon as its ping is written

---
 conn_write.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conn_write.go b/conn_write.go
index af9f483..e14a2cb 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -284,7 +284,8 @@ func (conn *Conn) SendJSON(ctx context.Context, v any) error {
 // return a non-nil error snapws.ErrPingAlreadySent. So, if you wish to send a ping manually,
 // you should keep trying until the error is not snapws.ErrPingAlreadySent.
 func (conn *Conn) Ping() error {
-	if conn.pingSent.Load() {
+	// set before writing, because the pong may arrive before writeControl returns.
+	if !conn.pingSent.CompareAndSwap(false, true) {
 		return ErrPingAlreadySent
 	}
 
@@ -293,7 +294,6 @@ func (conn *Conn) Ping() error {
 		return fatal(err)
 	}
 
-	conn.pingSent.Store(true)
 	return nil
 }
 
-- 
2.43.0


From dd31b1f3d513d09a820681b31a652dd068d648f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 37/44] fix: a failed ping closes the connection

---
 conn_write.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conn_write.go b/conn_write.go
index e14a2cb..eec19b0 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -291,6 +291,7 @@ func (conn *Conn) Ping() error {
 
 	err := conn.controlWriter.writeControl(OpcodePing, 0, false)
 	if err != nil {
+		conn.CloseWithCode(ClosePolicyViolation, err.Error())
 		return fatal(err)
 	}
 
-- 
2.43.0


From 72641664fa40003e3d777a83c18f463287e1687a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:13 +0000
Subject: [PATCH 38/44] fix: unsolicited pongs are ignored

---
 conn.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index ef6ee2a..cbc583b 100755
--- a/conn.go
+++ b/conn.go
@@ -177,8 +177,8 @@ func (conn *Conn) handlePong(n int, isMasked bool) error {
 
 		conn.controlWriter.mask(p)
 		if ok := comparePayload(conn.pingPayload[:], p); !ok {
-			conn.CloseWithCode(CloseProtocolError, "ping/pong payload mismatch")
-			return ErrConnClosed
+			// not an answer to our ping, unsolicited pongs are allowed.
+			return nil
 		}
 		if err = conn.raw.SetReadDeadline(time.Now().Add(conn.upgrader.ReadWait)); err != nil {
 			conn.CloseWithCode(CloseInternalServerErr, "timeout")
-- 
2.43.0


From 3c2d357f8302ed215ef475368c2ff7a2d6b9ef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:16 +0000
Subject: [PATCH 39/44] fix: an error of the rate limit hook closes the
 connection

---
 conn_utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conn_utils.go b/conn_utils.go
index 812eae5..929fa5f 100755
--- a/conn_utils.go
+++ b/conn_utils.go
@@ -110,6 +110,9 @@ func (conn *Conn) allow() (bool, error) {
 	if conn.upgrader.Limiter != nil && !conn.upgrader.Limiter.allow(conn) {
 		if conn.upgrader.Limiter.OnRateLimitHit != nil {
 			err := conn.upgrader.Limiter.OnRateLimitHit(conn)
+			if err != nil {
+				conn.CloseWithCode(ClosePolicyViolation, err.Error())
+			}
 			return false, err
 		}
 		return false, nil
-- 
2.43.0


From 4fc6a33d2f7bbf0c2c8e1237ae7914c34cd0caf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:19 +0000
Subject: [PATCH 40/44] fix: batches are sent one after the other, in order and
 within the size limit

---
 conn_batcher.go | 60 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 47 insertions(+), 13 deletions(-)

diff --git a/conn_batcher.go b/conn_batcher.go
index b729e1b..0643ffd 100755
--- a/conn_batcher.go
+++ b/conn_batcher.go
@@ -8,11 +8,17 @@ import (
 )
 
 type messageBatch struct {
-	messages  [][]byte
+	// accepted messages that haven't been sent yet.
+	messages [][]byte
+	// how many of the messages must be sent now.
+	due int
+	// total size of the messages that aren't due yet.
 	totalSize int
-	mu        sync.Mutex
-	conn      *Conn
-	flusher   *batchFlusher
+	// whether there is a goroutine sending the due messages, there is at most one so the order is kept.
+	sending bool
+	mu      sync.Mutex
+	conn    *Conn
+	flusher *batchFlusher
 }
 
 func (f *batchFlusher) newBatch(conn *Conn) *messageBatch {
@@ -87,19 +93,47 @@ func (conn *Conn) BatchJSON(v interface{}) error {
 	return conn.Batch(jData)
 }
 
-// if the messages slice isn't empty, it copies it, allocates a new one, and sends it.
+// marks all the messages as due, and starts sending them if no one is already doing it.
 func (b *messageBatch) flush() {
 	b.mu.Lock()
-	if len(b.messages) == 0 {
-		b.mu.Unlock()
-		return
-	}
-	c := b.messages
-	b.messages = make([][]byte, 0)
+	defer b.mu.Unlock()
+
+	b.due = len(b.messages)
 	b.totalSize = 0
-	b.mu.Unlock()
+	if b.due > 0 && !b.sending {
+		b.sending = true
+		go b.sendDue()
+	}
+}
+
+// sends the due messages, in order, as batches that don't exceed MaxBatchSize.
+func (b *messageBatch) sendDue() {
+	for messages := b.next(); len(messages) > 0; messages = b.next() {
+		b.send(messages)
+	}
+}
+
+// next removes the messages of the next batch from the due ones and returns them.
+// It returns nil, and the caller must stop sending, if there are none.
+func (b *messageBatch) next() [][]byte {
+	b.mu.Lock()
+	defer b.mu.Unlock()
+
+	if b.due == 0 {
+		b.sending = false
+		return nil
+	}
+
+	n, size := 1, len(b.messages[0])
+	for n < b.due && size+len(b.messages[n]) <= b.conn.upgrader.MaxBatchSize {
+		size += len(b.messages[n])
+		n++
+	}
 
-	go b.send(c)
+	messages := b.messages[:n:n]
+	b.messages = b.messages[n:]
+	b.due -= n
+	return messages
 }
 
 // receives the connections slice and the messages and calls the appropriate send function.
-- 
2.43.0


From 388a9206f2b0b4d79f69ba20eaa92475dd12db2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:19 +0000
Subject: [PATCH 41/44] fix: a message accepted while the flusher closes is
 sent

---
 conn_batcher.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/conn_batcher.go b/conn_batcher.go
index 0643ffd..6b73802 100755
--- a/conn_batcher.go
+++ b/conn_batcher.go
@@ -70,6 +70,11 @@ func (conn *Conn) Batch(data []byte) error {
 	conn.batch.totalSize += len(data)
 	conn.batch.mu.Unlock()
 
+	// the flusher may have closed, and flushed for the last time, meanwhile.
+	if conn.batch.flusher.IsClosed() {
+		conn.batch.flush()
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 321b8841ba31e84223312b512c9c2066c3893141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:00 +0000
Subject: [PATCH 42/44] fix: no message starts after one abandoned while the
 connection closes

---
 conn_write.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/conn_write.go b/conn_write.go
index eec19b0..8443ac9 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -183,9 +183,12 @@ func (w *ConnWriter) Close() error {
 // If err isn't nil the message is incomplete: when a part of it has already been sent,
 // the connection gets closed and the returned error is fatal.
 func (w *ConnWriter) release(err error) error {
-	if err != nil && w.flushCount > 0 && !IsFatalErr(err) {
+	if err != nil && w.flushCount > 0 {
+		// if it's already being closed, this waits until nothing more can be sent.
 		w.conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
-		err = fatal(err)
+		if !IsFatalErr(err) {
+			err = fatal(err)
+		}
 	}
 	if !w.closed {
 		w.closed = true
-- 
2.43.0


From 1eae6316fa431f2708d3ef1e050c4a3a52b3e1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:46 +0000
Subject: [PATCH 43/44] fix: reject control frames with extended lengths as
 protocol errors before reading the length

---
 conn_read.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/conn_read.go b/conn_read.go
index e64bc5b..2fdcc15 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -66,6 +66,11 @@ func (conn *Conn) acceptFrame() (uint8, error) {
 			return nilOpcode, errExpectedMaskedFrame
 		}
 
+		if isControl(opcode) && (!fin || lengthB > MaxControlFramePayload) {
+			conn.CloseWithCode(CloseProtocolError, ErrInvalidControlFrame.Error())
+			return nilOpcode, ErrInvalidControlFrame
+		}
+
 		// reading length
 		n := 0
 		switch lengthB {
@@ -94,10 +99,6 @@ func (conn *Conn) acceptFrame() (uint8, error) {
 
 		// handling control frames
 		if isControl(opcode) {
-			if !fin || n > MaxControlFramePayload {
-				conn.CloseWithCode(CloseProtocolError, ErrInvalidControlFrame.Error())
-				return nilOpcode, ErrInvalidControlFrame
-			}
 			switch opcode {
 			case OpcodeClose:
 				conn.handleClose(n, isMasked)
-- 
2.43.0


From bbbe9a771316fedca7a29866b61f40716a5a4d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:01 +0000
Subject: [PATCH 44/44] fix: deliver nothing of a message after a fatal error

---
 conn_read.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/conn_read.go b/conn_read.go
index 2fdcc15..781c694 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -201,6 +201,13 @@ func (conn *Conn) NextReader() (io.Reader, uint8, error) {
 //   - If a fatal error occurs (protocol violation, closed connection, etc.),
 //     the connection will be closed and a fatal error will be returned.
 func (r *ConnReader) Read(p []byte) (n int, err error) {
+	// after a fatal error the rest of the message must not be delivered.
+	select {
+	case <-r.conn.done:
+		return 0, fatal(ErrConnClosed)
+	default:
+	}
+
 	// if we reached the end if the frame and a Continuation frame is expected.
 	if r.remaining == 0 && !r.fin {
 		// checking if we reached the ReaderMaxFragments before reading the next frame.
-- 
2.43.0

