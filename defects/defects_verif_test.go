package snapws

// Demonstrations of the genuine defects found in the base commit: each test fails on the
// commit before its "fix:" commit and passes after it. In-package, run through an overlay
// (see /verif/defects/run.sh). Everything is in memory.

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

type dConn struct {
	mu      sync.Mutex
	in      []byte
	out     []byte
	closed  atomic.Bool
	failW   atomic.Bool
	failDL  atomic.Bool
	chunk   int
	readErr error // delivered together with the last bytes
	closedC chan struct{}
	once    sync.Once
	block   bool // block reads at end of input until closed
}

func (m *dConn) Read(b []byte) (int, error) {
	m.mu.Lock()
	if len(m.in) > 0 {
		n := len(b)
		if m.chunk > 0 && n > m.chunk {
			n = m.chunk
		}
		n = copy(b[:n], m.in)
		m.in = m.in[n:]
		var err error
		if len(m.in) == 0 && m.readErr != nil {
			err = m.readErr
		}
		m.mu.Unlock()
		return n, err
	}
	m.mu.Unlock()
	if m.block {
		<-m.closedC
	}
	return 0, io.EOF
}
func (m *dConn) Write(b []byte) (int, error) {
	if m.closed.Load() || m.failW.Load() {
		return 0, io.ErrClosedPipe
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	m.out = append(m.out, b...)
	return len(b), nil
}
func (m *dConn) Close() error {
	m.closed.Store(true)
	m.once.Do(func() { close(m.closedC) })
	return nil
}
func (m *dConn) LocalAddr() net.Addr               { return &net.TCPAddr{} }
func (m *dConn) RemoteAddr() net.Addr              { return &net.TCPAddr{} }
func (m *dConn) SetDeadline(t time.Time) error     { return nil }
func (m *dConn) SetReadDeadline(t time.Time) error { return nil }
func (m *dConn) SetWriteDeadline(t time.Time) error {
	if m.failDL.Load() {
		return io.ErrClosedPipe
	}
	return nil
}
func (m *dConn) output() []byte {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]byte(nil), m.out...)
}

func dNew(opts *Options, in ...[]byte) (*Conn, *dConn) {
	if opts == nil {
		opts = &Options{}
	}
	if opts.WriteWait == 0 {
		opts.WriteWait = 500 * time.Millisecond
	}
	if opts.ReadWait == 0 {
		opts.ReadWait = time.Second
	}
	u := NewUpgrader(opts)
	return dNewU(u, in...)
}
func dNewU(u *Upgrader, in ...[]byte) (*Conn, *dConn) {
	m := &dConn{in: bytes.Join(in, nil), closedC: make(chan struct{})}
	return u.newConn(m, "", bufio.NewReader(m), nil), m
}

// client frame
func cf(fin bool, op byte, payload string) []byte {
	b0 := op
	if fin {
		b0 |= 0x80
	}
	key := []byte{0x11, 0x22, 0x33, 0x44}
	out := []byte{b0}
	switch n := len(payload); {
	case n < 126:
		out = append(out, 0x80|byte(n))
	case n < 65536:
		out = append(out, 0x80|126, byte(n>>8), byte(n))
	default:
		out = append(out, 0x80|127)
		out = binary.BigEndian.AppendUint64(out, uint64(n))
	}
	out = append(out, key...)
	for i := 0; i < len(payload); i++ {
		out = append(out, payload[i]^key[i%4])
	}
	return out
}

type sf struct {
	fin     bool
	op      byte
	payload string
}

// parse server frames; ok=false when malformed
func parseOut(b []byte) (fs []sf, ok bool) {
	for len(b) > 0 {
		if len(b) < 2 || b[1]&0x80 != 0 || b[0]&0x70 != 0 {
			return fs, false
		}
		n, h := int(b[1]), 2
		if n == 126 {
			if len(b) < 4 {
				return fs, false
			}
			n, h = int(binary.BigEndian.Uint16(b[2:])), 4
		} else if n == 127 {
			if len(b) < 10 {
				return fs, false
			}
			n, h = int(binary.BigEndian.Uint64(b[2:])), 10
		}
		if len(b) < h+n {
			return fs, false
		}
		fs = append(fs, sf{b[0]&0x80 != 0, b[0] & 15, string(b[h : h+n])})
		b = b[h+n:]
	}
	return fs, true
}

// within runs f and reports whether it returned in time.
func within(d time.Duration, f func()) bool {
	c := make(chan struct{})
	go func() { f(); close(c) }()
	select {
	case <-c:
		return true
	case <-time.After(d):
		return false
	}
}
func dClosed(c *Conn) bool {
	select {
	case <-c.done:
		return true
	default:
		return false
	}
}

const tmo = 3 * time.Second

// C01/C11: a ping following a pong with payload must not keep the stale length byte.
func TestDefect_StaleControlLength(t *testing.T) {
	c, m := dNew(nil, cf(true, OpcodePing, "hello"), cf(true, OpcodePing, ""), cf(true, OpcodeText, "x"))
	if _, _, err := c.ReadMessage(); err != nil {
		t.Fatal(err)
	}
	c.Ping()
	fs, ok := parseOut(m.output())
	if !ok || len(fs) != 3 || fs[0].payload != "hello" || fs[1].payload != "" || fs[2].op != OpcodePing {
		t.Fatalf("malformed control frames %x", m.output())
	}
}

// C05: failed data write must not deadlock.
func TestDefect_WriteFailureDeadlock(t *testing.T) {
	c, m := dNew(nil)
	m.failW.Store(true)
	if !within(tmo, func() { c.SendString(nil, []byte("x")) }) {
		t.Fatal("send on a broken transport never returns")
	}
	if !m.closed.Load() {
		t.Fatal("transport not closed")
	}
}

// C05: close while a writer is open and the transport is broken.
func TestDefect_CloseWithOpenWriter(t *testing.T) {
	c, m := dNew(nil)
	w, _ := c.NextWriter(nil, OpcodeText)
	w.Write([]byte("abc"))
	m.failW.Store(true)
	if !within(tmo, c.Close) {
		t.Fatal("Close never returns")
	}
}

// C05: SendJSON of a value that cannot be encoded must not keep the writer reserved.
func TestDefect_SendJSONLeak(t *testing.T) {
	c, _ := dNew(nil)
	if c.SendJSON(nil, make(chan int)) == nil {
		t.Fatal("no error")
	}
	if !within(tmo, func() { c.SendString(nil, []byte("x")) }) {
		t.Fatal("writer leaked")
	}
}

// C05/C03: SendMessage whose flush fails because of the context.
func TestDefect_SendMessageCtx(t *testing.T) {
	c, m := dNew(&Options{WriteBufferSize: 20})
	c.writeLock.forceLock() // another frame is being written
	ctx, cancel := context.WithTimeout(context.Background(), 50*time.Millisecond)
	defer cancel()
	if c.SendMessage(ctx, OpcodeText, make([]byte, 100)) == nil {
		t.Fatal("no error")
	}
	c.writeLock.unLock()
	if !within(tmo, func() { c.SendString(nil, []byte("next")) }) {
		t.Fatal("writer leaked")
	}
	fs, ok := parseOut(m.output())
	if !ok || len(fs) != 1 || fs[0] != (sf{true, OpcodeText, "next"}) {
		t.Fatalf("bad wire %v %v", ok, fs)
	}
}

// C02: a flush that failed on the context can be retried.
func TestDefect_FlushRetry(t *testing.T) {
	c, m := dNew(nil)
	ctx, cancel := context.WithCancel(context.Background())
	w, _ := c.NextWriter(ctx, OpcodeText)
	w.Write([]byte("abc"))
	c.writeLock.forceLock()
	cancel()
	if err := w.Flush(); !errors.Is(err, context.Canceled) {
		t.Fatal(err)
	}
	c.writeLock.unLock()
	w.ctx = nil
	if err := w.Close(); err != nil {
		t.Fatalf("retry: %v", err)
	}
	fs, ok := parseOut(m.output())
	if !ok || len(fs) != 1 || fs[0].payload != "abc" {
		t.Fatal(fs)
	}
}

// C03: broken off message must not be followed by another data message.
func TestDefect_AbortedFragmentedMessage(t *testing.T) {
	for i := 0; i < 20; i++ {
		c, m := dNew(nil)
		ctx, cancel := context.WithCancel(context.Background())
		w, _ := c.NextWriter(ctx, OpcodeText)
		w.Write([]byte("abc"))
		w.Flush()
		w.Write([]byte("def"))
		c.writeLock.forceLock()
		cancel()
		time.AfterFunc(20*time.Millisecond, c.writeLock.unLock)
		w.Close()
		time.Sleep(30 * time.Millisecond)
		c.SendString(nil, []byte("next"))
		fs, ok := parseOut(m.output())
		if !ok {
			t.Fatal("malformed")
		}
		open := false
		for _, f := range fs {
			if f.op >= 8 {
				continue
			}
			if open != (f.op == 0) {
				t.Fatalf("interleaved: %v", fs)
			}
			open = !f.fin
		}
	}
}

// C03: a stale writer handle must not end another message.
func TestDefect_StaleWriterHandle(t *testing.T) {
	c, m := dNew(nil)
	w1, _ := c.NextWriter(nil, OpcodeText)
	w1.Write([]byte("one"))
	w1.Close()
	w2, _ := c.NextWriter(nil, OpcodeText)
	w2.Write([]byte("tw"))
	w1.Close()
	w2.Write([]byte("o"))
	w2.Close()
	fs, _ := parseOut(m.output())
	if len(fs) != 2 || fs[1].payload != "two" {
		t.Fatalf("%v", fs)
	}
}

// C03: broadcast in the middle of a fragmented message.
func TestDefect_BroadcastInterleaves(t *testing.T) {
	c, m := dNew(nil)
	c.enableBroadcasting()
	w, _ := c.NextWriter(nil, OpcodeText)
	w.Write([]byte("abc"))
	w.Flush()
	c.upgrader.broadcast(nil, []*Conn{c}, OpcodeText, []byte("bc"))
	time.Sleep(100 * time.Millisecond)
	w.Write([]byte("def"))
	w.Close()
	time.Sleep(100 * time.Millisecond)
	fs, _ := parseOut(m.output())
	if len(fs) != 3 || fs[1].op != 0 {
		t.Fatalf("interleaved: %v", fs)
	}
}

// C14: broadcast write failure closes.
func TestDefect_BroadcastFailureCloses(t *testing.T) {
	c, m := dNew(nil)
	c.enableBroadcasting()
	m.failW.Store(true)
	c.upgrader.broadcast(nil, []*Conn{c}, OpcodeText, []byte("bc"))
	time.Sleep(200 * time.Millisecond)
	if !dClosed(c) {
		t.Fatal("connection left open with a dead listener")
	}
}

// C13: a buffer of a closed connection must not be written by it any more.
func TestDefect_PooledBufferAfterClose(t *testing.T) {
	u := NewUpgrader(&Options{WriteBufferSize: 100, WriteWait: time.Second})
	for i := 0; i < 50; i++ {
		a, _ := dNewU(u)
		a.Close()
		b, m := dNewU(u)
		w, err := b.NextWriter(nil, OpcodeText)
		if err != nil {
			t.Fatal(err)
		}
		w.Write([]byte("secret-b"))
		a.SendString(nil, []byte("from-a--"))
		w.Close()
		fs, _ := parseOut(m.output())
		if len(fs) != 1 || fs[0].payload != "secret-b" {
			t.Fatalf("other connection's bytes: %v", fs)
		}
		b.Close()
	}
}

// C25: hooks may close the connection.
func TestDefect_HookReentrancy(t *testing.T) {
	c, _ := dNew(&Options{OnDisconnect: func(c *Conn) { c.Close() }})
	if !within(tmo, c.Close) {
		t.Fatal("OnDisconnect calling Close deadlocks")
	}
	rm := NewRoomManager[string](nil)
	r, r2 := rm.Add("a"), rm.Add("b")
	r.OnLeave = func(room *Room[string], c *Conn, args ...any) { r2.Add(c) }
	c2, _ := dNewU(rm.Upgrader)
	r.Add(c2)
	if !within(tmo, c2.Close) {
		t.Fatal("OnLeave calling Add deadlocks")
	}
}

// C13: close always closes the transport
func TestDefect_CloseWithFailingDeadline(t *testing.T) {
	c, m := dNew(nil)
	m.failDL.Store(true)
	c.Close()
	if !m.closed.Load() {
		t.Fatal("transport left open")
	}
}

// C27
func TestDefect_ManagerShutdown(t *testing.T) {
	mg := NewManager[string](nil)
	c, _ := dNewU(mg.Upgrader)
	mc := mg.newManagedConn(c, "k")
	mg.Register("k", mc)
	if !within(tmo, mg.Shutdown) {
		t.Fatal("Manager.Shutdown deadlocks")
	}
	if !dClosed(c) || mg.Get("k") != nil {
		t.Fatal("not closed")
	}
}
func TestDefect_RoomShutdownHook(t *testing.T) {
	rm := NewRoomManager[string](nil)
	rm.DefaultOnLeave = func(room *Room[string], c *Conn, args ...any) { rm.Get("x") }
	r := rm.Add("a")
	c, _ := dNewU(rm.Upgrader)
	r.Add(c)
	if !within(tmo, rm.Shutdown) {
		t.Fatal("Shutdown deadlocks with a hook that uses the manager")
	}
}

// C18
func TestDefect_ReplacedConnEvictsNew(t *testing.T) {
	mg := NewManager[string](nil)
	a, _ := dNewU(mg.Upgrader)
	ma := mg.newManagedConn(a, "k")
	mg.Register("k", ma)
	b, _ := dNewU(mg.Upgrader)
	mb := mg.newManagedConn(b, "k")
	mg.Register("k", mb)
	a.Close()
	if mg.Get("k") != mb {
		t.Fatal("closing the replaced connection evicted the new one")
	}
}
func TestDefect_RegisterClosedConn(t *testing.T) {
	mg := NewManager[string](nil)
	a, _ := dNewU(mg.Upgrader)
	ma := mg.newManagedConn(a, "k")
	a.Close()
	mg.Register("k", ma)
	if mg.Get("k") != nil {
		t.Fatal("closed connection stays registered")
	}
}

// C19
func TestDefect_RoomHooks(t *testing.T) {
	rm := NewRoomManager[string](nil)
	r := rm.Add("a")
	joins, leaves := 0, 0
	r.OnJoin = func(*Room[string], *Conn, ...any) { joins++ }
	r.OnLeave = func(*Room[string], *Conn, ...any) { leaves++ }
	c, _ := dNewU(rm.Upgrader)
	r.Add(c)
	r.Add(c)
	r.Remove(c)
	r.Remove(c)
	c.Close()
	if joins != 1 || leaves != 1 {
		t.Fatalf("joins %d leaves %d", joins, leaves)
	}
}
func TestDefect_RemoveAllNilHook(t *testing.T) {
	rm := NewRoomManager[string](nil)
	r := rm.Add("a")
	c, _ := dNewU(rm.Upgrader)
	r.Add(c)
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	r.Close()
}
func TestDefect_TwoRooms(t *testing.T) {
	rm := NewRoomManager[string](nil)
	r1, r2 := rm.Add("a"), rm.Add("b")
	c, _ := dNewU(rm.Upgrader)
	r1.Add(c)
	r2.Add(c)
	c.Close()
	if len(r1.GetAllConns()) != 0 || len(r2.GetAllConns()) != 0 {
		t.Fatal("closed connection still in a room")
	}
}
func TestDefect_AddClosedConn(t *testing.T) {
	rm := NewRoomManager[string](nil)
	r := rm.Add("a")
	c, _ := dNewU(rm.Upgrader)
	c.Close()
	r.Add(c)
	if len(r.GetAllConns()) != 0 {
		t.Fatal("closed connection in room")
	}
}

// C20
func TestDefect_BroadcastWaitOnClosed(t *testing.T) {
	u := NewUpgrader(&Options{BroadcastBackpressure: BackpressureWait, BroadcastChannelsSize: 1, WriteWait: 200 * time.Millisecond})
	c, _ := dNewU(u)
	c.enableBroadcasting()
	c.Close()
	time.Sleep(50 * time.Millisecond)
	if !within(tmo, func() {
		for i := 0; i < 10; i++ {
			u.broadcast(nil, []*Conn{c}, OpcodeText, []byte("x"))
		}
	}) {
		t.Fatal("broadcast blocks forever on a closed connection")
	}
}
func TestDefect_BatchBroadcastNilCtx(t *testing.T) {
	u := NewUpgrader(nil)
	u.EnableJSONBatching(context.Background(), time.Hour)
	defer u.Flusher.Close()
	c, _ := dNewU(u)
	c.enableBroadcasting()
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	u.batchBroadcast(nil, []*Conn{c}, []byte("x"))
}

// C09
func TestDefect_NoMaxMessageSize(t *testing.T) {
	c, _ := dNew(&Options{MaxMessageSize: -1}, cf(true, OpcodeText, "hi"))
	if _, d, err := c.ReadMessage(); err != nil || string(d) != "hi" {
		t.Fatal(err)
	}
}
func TestDefect_SizeOverflow(t *testing.T) {
	in := cf(false, OpcodeBinary, "0123456789")
	big := []byte{0x80, 0x80 | 127, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1, 2, 3, 4, 5, 6, 7, 8}
	c, _ := dNew(&Options{MaxMessageSize: int(^uint(0) >> 1)}, in, big)
	r, _, err := c.NextReader()
	if err != nil {
		t.Fatal(err)
	}
	p := make([]byte, 10)
	io.ReadFull(r, p)
	n, err := r.Read(p)
	if n != 0 || err == nil || err.Error() != ErrMessageTooLarge.Error() {
		t.Fatal(n, err)
	}
}
func TestDefect_MaxFragments(t *testing.T) {
	c, _ := dNew(&Options{ReaderMaxFragments: 2}, cf(false, OpcodeText, "a"), cf(false, 0, "b"), cf(true, 0, "c"))
	if _, _, err := c.ReadMessage(); err == nil {
		t.Fatal("3 fragments accepted with a limit of 2")
	}
}
func TestDefect_ControlFramesAndMessageLimit(t *testing.T) {
	c, m := dNew(&Options{MaxMessageSize: 4}, cf(true, OpcodePing, "0123456789"), cf(true, OpcodeText, "hi"))
	if _, _, err := c.ReadMessage(); err != nil {
		t.Fatal(err)
	}
	if fs, _ := parseOut(m.output()); len(fs) != 1 || fs[0].payload != "0123456789" {
		t.Fatal(fs)
	}
}

// C08
func TestDefect_ReadAfterMismatch(t *testing.T) {
	c, _ := dNew(nil, cf(true, OpcodeBinary, "\x81\x81\x00\x00\x00\x00X"), cf(true, OpcodeText, `"b"`))
	var s string
	if err := c.ReadJSON(&s); err != ErrMessageTypeMismatch {
		t.Fatal(err)
	}
	if d, err := c.ReadString(); err != nil || string(d) != `"b"` {
		t.Fatal(string(d), err)
	}
}
func TestDefect_JSONTrailing(t *testing.T) {
	c, _ := dNew(nil, cf(false, OpcodeText, `"a"`), cf(true, 0, strings.Repeat(" ", 5000)), cf(true, OpcodeText, `"b"`))
	var s string
	if err := c.ReadJSON(&s); err != nil {
		t.Fatal(err)
	}
	if err := c.ReadJSON(&s); err != nil || s != "b" {
		t.Fatal(s, err)
	}
}

// C07
func TestDefect_UnmaskWithError(t *testing.T) {
	payload := strings.Repeat("p", 10000)
	u := NewUpgrader(&Options{})
	m := &dConn{in: cf(true, OpcodeBinary, payload)[:8000], closedC: make(chan struct{}), readErr: io.ErrUnexpectedEOF}
	c := u.newConn(m, "", bufio.NewReaderSize(m, 4096), nil)
	r, _, err := c.NextReader()
	if err != nil {
		t.Fatal(err)
	}
	p := make([]byte, 9000)
	n, _ := r.Read(p)
	if string(p[:n]) != payload[:n] {
		t.Fatal("masked bytes delivered")
	}
}

// C21
func TestDefect_BatchNilRace(t *testing.T) {
	u := NewUpgrader(nil)
	u.EnableJSONBatching(context.Background(), time.Hour)
	c := &Conn{upgrader: u}
	b := u.Flusher.newBatch(c)
	if c.batch != b {
		t.Fatal("connection visible to the flusher before its batch is set")
	}
}
func TestDefect_BatchOrder(t *testing.T) {
	u := NewUpgrader(&Options{MaxBatchSize: 8})
	var mu sync.Mutex
	var got []string
	over := false
	u.EnableBatching(context.Background(), time.Millisecond, func(ctx context.Context, c *Conn, ms [][]byte) error {
		if ms[0][0]%2 == 0 {
			time.Sleep(2 * time.Millisecond)
		}
		mu.Lock()
		defer mu.Unlock()
		n := 0
		for _, x := range ms {
			got = append(got, string(x))
			n += len(x)
		}
		if n > 8 && len(ms) > 1 {
			over = true
		}
		return nil
	})
	c, _ := dNewU(u)
	for i := 0; i < 100; i++ {
		c.Batch([]byte{byte(i), 1, 2})
	}
	time.Sleep(400 * time.Millisecond)
	mu.Lock()
	defer mu.Unlock()
	if len(got) != 100 || over {
		t.Fatal(len(got), over)
	}
	for i := range got {
		if got[i][0] != byte(i) {
			t.Fatalf("out of order at %d", i)
		}
	}
}

// C28
func TestDefect_PingLoopLeak(t *testing.T) {
	base := runtime.NumGoroutine()
	for i := 0; i < 50; i++ {
		c, _ := dNew(nil)
		time.Sleep(time.Millisecond)
		c.Close()
	}
	time.Sleep(200 * time.Millisecond)
	if n := runtime.NumGoroutine(); n > base+10 {
		t.Fatalf("%d goroutines left", n-base)
	}
}

type dHijack struct {
	*httptest.ResponseRecorder
	c  net.Conn
	br *bufio.Reader
}

func (h *dHijack) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	return h.c, bufio.NewReadWriter(h.br, bufio.NewWriterSize(h.c, 4096)), nil
}
func dReq() *http.Request {
	r := httptest.NewRequest("GET", "/", nil)
	r.Header.Set("Upgrade", "websocket")
	r.Header.Set("Connection", "Upgrade")
	r.Header.Set("Sec-WebSocket-Version", "13")
	r.Header.Set("Sec-WebSocket-Key", "dGhlIHNhbXBsZSBub25jZQ==")
	return r
}
func TestDefect_FailedHandshakeLeaks(t *testing.T) {
	u := NewUpgrader(nil)
	u.EnableJSONBatching(context.Background(), time.Hour)
	m := &dConn{closedC: make(chan struct{})}
	m.failW.Store(true)
	if _, err := u.Upgrade(&dHijack{httptest.NewRecorder(), m, bufio.NewReader(m)}, dReq()); err == nil {
		t.Fatal("no error")
	}
	if !m.closed.Load() {
		t.Fatal("transport left open")
	}
	if len(u.Flusher.conns) != 0 {
		t.Fatal("still registered with the flusher")
	}
}

// C11
func TestDefect_FastPong(t *testing.T) {
	c, m := dNew(nil)
	_ = m
	c.raw = &pongConn{dConn: m, c: c}
	if err := c.Ping(); err != nil {
		t.Fatal(err)
	}
	if c.pingSent.Load() {
		t.Fatal("pong that arrived during the ping was not counted: pinging stops for good")
	}
}

type pongConn struct {
	*dConn
	c *Conn
}

// the peer answers before Write returns
func (p *pongConn) Write(b []byte) (int, error) {
	n, err := p.dConn.Write(b)
	if b[0] == 0x89 {
		p.dConn.in = append(p.dConn.in, cf(true, OpcodePong, "")...)
		p.dConn.in = append(p.dConn.in, cf(true, OpcodeText, "x")...)
		p.c.ReadMessage()
	}
	return n, err
}
func TestDefect_UnsolicitedPong(t *testing.T) {
	c, _ := dNew(nil, cf(true, OpcodePong, "heartbeat"), cf(true, OpcodeText, "x"))
	c.Ping()
	if _, _, err := c.ReadMessage(); err != nil {
		t.Fatal("unsolicited pong is fatal:", err)
	}
}

// C14
func TestDefect_PingFailureCloses(t *testing.T) {
	c, m := dNew(nil)
	m.failW.Store(true)
	if err := c.Ping(); !IsFatalErr(err) || !dClosed(c) {
		t.Fatal("fatal error but connection open")
	}
}
func TestDefect_LimiterErrorCloses(t *testing.T) {
	u := NewUpgrader(nil)
	u.Limiter = NewRateLimiter(1, 0)
	u.Limiter.OnRateLimitHit = func(*Conn) error { return errors.New("no") }
	c, _ := dNewU(u, cf(true, OpcodeText, "x"))
	u.Limiter.addClient(c)
	if _, _, err := c.NextReader(); !IsFatalErr(err) || !dClosed(c) {
		t.Fatal("fatal error but connection open", err)
	}
}

// C17
func TestDefect_SmallReadBuffer(t *testing.T) {
	c, m := dNew(&Options{ReadBufferSize: 32}, cf(true, OpcodePing, strings.Repeat("p", 125)), cf(true, OpcodeText, "x"))
	if _, _, err := c.ReadMessage(); err != nil {
		t.Fatal(err)
	}
	if fs, _ := parseOut(m.output()); len(fs) != 1 || len(fs[0].payload) != 125 {
		t.Fatal(fs)
	}
}

// C26
func TestDefect_TinyWriteBuffer(t *testing.T) {
	for _, sz := range []int{1, 13, 14} {
		c, m := dNew(&Options{WriteBufferSize: sz})
		if !within(tmo, func() {
			defer func() { recover() }()
			c.SendString(nil, []byte("hello"))
		}) {
			m.Close()
			t.Fatal("send never returns")
		}
		s := ""
		fs, _ := parseOut(m.output())
		for _, f := range fs {
			s += f.payload
		}
		if s != "hello" {
			t.Fatalf("size %d: %v", sz, fs)
		}
	}
}

// C23
func TestDefect_LimiterLeakOnConnectClose(t *testing.T) {
	u := NewUpgrader(&Options{OnConnect: func(c *Conn) { c.Close() }})
	u.Limiter = NewRateLimiter(1, 1)
	m := &dConn{closedC: make(chan struct{})}
	if _, err := u.Upgrade(&dHijack{httptest.NewRecorder(), m, bufio.NewReader(m)}, dReq()); err != nil {
		t.Fatal(err)
	}
	if len(u.Limiter.clients) != 0 {
		t.Fatal("closed connection keeps a bucket forever")
	}
}

// C15
func TestDefect_SplitHeaderLines(t *testing.T) {
	u := NewUpgrader(&Options{SubProtocols: []string{"b"}})
	m := &dConn{closedC: make(chan struct{})}
	r := dReq()
	r.Header["Connection"] = []string{"keep-alive", "Upgrade"}
	r.Header["Sec-Websocket-Protocol"] = []string{"a", "b"}
	c, err := u.Upgrade(&dHijack{httptest.NewRecorder(), m, bufio.NewReader(m)}, r)
	if err != nil || c.SubProtocol != "b" {
		t.Fatal("list header split over several lines rejected", err)
	}
}

// C04: nothing is written after a partially written frame.
func TestDefect_WriteAfterPartialFrame(t *testing.T) {
	c, m := dNew(nil)
	pc := &partialConn{dConn: m}
	c.raw = pc
	c.SendString(nil, []byte(strings.Repeat("x", 40)))
	if pc.afterPartial > 0 {
		t.Fatalf("%d bytes written after a partial frame", pc.afterPartial)
	}
}

type partialConn struct {
	*dConn
	n, afterPartial int
	closed          bool
}

func (p *partialConn) Close() error { p.closed = true; return p.dConn.Close() }

func (p *partialConn) Write(b []byte) (int, error) {
	p.n++
	if p.n == 1 {
		return 30, errors.New("timeout")
	}
	if p.closed {
		return 0, errors.New("closed")
	}
	p.afterPartial += len(b)
	return len(b), nil
}

// C13: a closed connection leaves the flusher it was added to.
func TestDefect_ReplacedFlusher(t *testing.T) {
	u := NewUpgrader(nil)
	u.EnableJSONBatching(context.Background(), time.Hour)
	f := u.Flusher
	c, _ := dNewU(u)
	u.EnableJSONBatching(context.Background(), time.Hour)
	c.Close()
	if f.conns[c] {
		t.Fatal("closed connection still in its flusher")
	}
	u.Flusher.Close()
}

// C20/C24: joining from several goroutines makes exactly one queue.
func TestDefect_BroadcastQueueRace(t *testing.T) {
	for i := 0; i < 300; i++ {
		c, m := dNew(nil)
		rm := NewRoomManager[int](c.upgrader)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for k := 0; k < 8; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				r := rm.Add(k)
				r.Add(c)
				if n, _ := r.BroadcastString(nil, []byte("x")); n != 1 {
					t.Errorf("broadcast taken by %d queues", n)
				}
			}()
		}
		close(start)
		wg.Wait()
		if !within(tmo, func() {
			for strings.Count(string(m.output()), "x") < 8 && !t.Failed() {
				time.Sleep(time.Millisecond)
			}
		}) {
			t.Fatal("accepted broadcasts were never written")
		}
		c.Close()
		if t.Failed() {
			return
		}
	}
}

// C19: closing a room twice does not drop the room that took its key.
func TestDefect_RoomCloseTwice(t *testing.T) {
	rm := NewRoomManager[string](nil)
	old := rm.Add("a")
	old.Close()
	r := rm.Add("a")
	old.Close()
	if rm.Get("a") != r {
		t.Fatal("closing an old room dropped the new one")
	}
}

// C21: a message accepted while the flusher closes is still sent.
func TestDefect_BatchWhileFlusherCloses(t *testing.T) {
	for i := 0; i < 3000; i++ {
		var sent atomic.Int64
		u := NewUpgrader(nil)
		u.EnableBatching(context.Background(), time.Hour, func(_ context.Context, _ *Conn, m [][]byte) error {
			sent.Add(int64(len(m)))
			return nil
		})
		c := &Conn{upgrader: u, done: make(chan struct{})}
		u.Flusher.newBatch(c)
		go func() {
			for k := 0; k < i%20*10; k++ {
				runtime.Gosched()
			}
			u.Flusher.Close()
		}()
		accepted := int64(0)
		for c.Batch([]byte("x")) == nil {
			accepted++
		}
		if !within(tmo, func() {
			for sent.Load() != accepted {
				time.Sleep(100 * time.Microsecond)
			}
		}) {
			t.Fatalf("accepted %d, sent %d", accepted, sent.Load())
		}
	}
}

// The sender of a fragmented message gives up because the connection is being closed; the close
// frame is still waiting (a pong is being answered). No other message may start on the wire.
func TestDefect_MessageAfterAbandonedOne(t *testing.T) {
	for try := 0; try < 100; try++ {
		c, m := dNew(nil)
		ctx := context.Background()
		w, err := c.NextWriter(ctx, OpcodeText)
		if err != nil {
			t.Fatal(err)
		}
		if _, err = w.Write([]byte("first")); err != nil {
			t.Fatal(err)
		}
		if err = w.Flush(); err != nil {
			t.Fatal(err)
		}
		c.controlWriter.lock.forceLock() // a pong in progress
		go c.Close()
		<-c.done
		res := make(chan struct{})
		go func() {
			// the writer gives up, or succeeds if it still gets the lock
			w.Close()
			c.SendMessage(ctx, OpcodeText, []byte("second"))
			close(res)
		}()
		select {
		case <-res:
		case <-time.After(5 * time.Millisecond):
		}
		c.controlWriter.lock.unLock()
		<-res
		open := false
		fs, ok := parseOut(m.output())
		if !ok {
			t.Fatal("malformed output")
		}
		for _, f := range fs {
			if f.op >= 8 {
				continue
			}
			if open != (f.op == 0) {
				t.Fatalf("try %d: a message starts while another one is incomplete", try)
			}
			open = !f.fin
		}
	}
}

// C06: a control frame with a 64-bit length is a protocol error, whatever the length.
func TestDefect_HugeControlFrame(t *testing.T) {
	for _, in := range [][]byte{{0x89, 0xff, 0x80, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4}, {0x88, 0xff, 0xff, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4}} {
		c, m := dNew(nil, in)
		if _, _, err := c.NextReader(); !IsFatalErr(err) {
			t.Fatal(err)
		}
		fs, _ := parseOut(m.output())
		if len(fs) != 1 || len(fs[0].payload) < 2 || binary.BigEndian.Uint16([]byte(fs[0].payload)) != CloseProtocolError {
			t.Fatalf("%v", fs)
		}
	}
}

// C09: after the fatal error nothing of the message that was too large is delivered.
func TestDefect_ReadAfterFatal(t *testing.T) {
	c, _ := dNew(&Options{MaxMessageSize: 10}, cf(false, OpcodeText, "12345"), cf(true, OpcodeContinuation, "secret"))
	r, _, err := c.NextReader()
	if err != nil {
		t.Fatal(err)
	}
	b := make([]byte, 32)
	got := 0
	for i := 0; i < 6; i++ {
		n, _ := r.Read(b)
		got += n
	}
	if got > 10 {
		t.Fatalf("%d bytes of a message limited to 10 delivered", got)
	}
}
