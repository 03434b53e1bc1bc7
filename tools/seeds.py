SEEDS = {}


def seed(id, property, needs, breaks, edits, demo, race=False):
    SEEDS[id] = dict(prop=property, needs=needs, breaks=breaks, edits=edits, demo='package snapws\n' + demo, race=race)


seed('C01-len65535', 'C01', 'a frame whose payload is exactly 65535 bytes (write buffer of 65549 bytes or more)',
     'the length is sent in the 64-bit form although 16 bits suffice: the frame is not minimally encoded',
     [['frame.go', '} else if payloadLength <= math.MaxUint16 {', '} else if payloadLength < math.MaxUint16 {']],
     '''
import "testing"

func TestDemo(t *testing.T) {
	c, m := vNew(t, &Options{WriteBufferSize: 65535 + MaxHeaderSize, MaxMessageSize: -1})
	for _, n := range []int{65534, 65535, 65536} {
		if err := c.SendBytes(nil, vPattern(n)); err != nil {
			t.Fatal(err)
		}
	}
	m.frames(t)
}
''')
seed('C02-write-count', 'C02', 'a Write larger than the space left in the buffer whose implicit flush fails with a non-fatal error (context over), after which the caller continues with the rest of its data',
     'Write reports 0 bytes although it took a prefix, so a caller that resumes sends the prefix twice',
     [['conn_write.go', '''			if err := w.flush(false); err != nil {
				return n, err''', '''			if err := w.flush(false); err != nil {
				return 0, err''']],
     '''
import (
	"context"
	"testing"
	"time"
)

// a context whose end can be taken back
type onOff struct {
	context.Context
	ch chan struct{}
}

func (o *onOff) Done() <-chan struct{} { return o.ch }
func (o *onOff) Err() error            { return context.DeadlineExceeded }

func TestDemo(t *testing.T) {
	c, m := vNew(t, &Options{WriteBufferSize: 64 + MaxHeaderSize})
	ctx := &onOff{context.Background(), make(chan struct{})}
	w, err := c.NextWriter(ctx, OpcodeBinary)
	if err != nil {
		t.Fatal(err)
	}
	// the transport is busy, and the context ends while the writer waits for it
	hold := make(chan struct{})
	entered := make(chan struct{})
	m.mu.Lock()
	m.onWrite = func(b []byte) (int, error, bool) {
		if b[0]&15 == 9 {
			close(entered)
			<-hold
		}
		return 0, nil, false
	}
	m.mu.Unlock()
	go c.Ping()
	<-entered
	go func() { time.Sleep(50 * time.Millisecond); close(ctx.ch) }()
	p := vPattern(100)
	n, err := w.Write(p)
	if err == nil {
		t.Fatal("no error")
	}
	close(hold)
	time.Sleep(100 * time.Millisecond)
	ctx.ch = make(chan struct{})
	w.ctx = context.Background()
	for n < len(p) {
		k, err := w.Write(p[n:])
		if err != nil {
			t.Fatal(err)
		}
		n += k
	}
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	ms := m.messages(t)
	if len(ms) != 1 || ms[0].data != string(p) {
		t.Fatalf("sent %d bytes of %d, altered", len(ms[0].data), len(p))
	}
}
''')
seed('C13-code-after', 'C13', 'a close with a reason of exactly 123 bytes or a code outside the allowed set',
     'the close frame carries a status code that must not be sent',
     [['conn_write.go', '''	if !isValidCloseCode(closeCode) {
		closeCode = CloseGoingAway
	}''', '''	if !isValidCloseCode(closeCode) && len(reason) < MaxControlFramePayload-2 {
		closeCode = CloseGoingAway
	}''']],
     '''
import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, n := range []int{0, 1, 122, 123, 124} {
		for _, code := range []uint16{1000, 1005, 1006, 1015, 999, 2999, 5000, 4999} {
			c, m := vNew(t, nil)
			c.CloseWithCode(code, strings.Repeat("r", n))
			cs := m.closeCodes(t)
			if len(cs) != 1 || cs[0] == 1005 || cs[0] == 1006 || cs[0] == 1015 || cs[0] < 1000 || cs[0] > 4999 || cs[0] > 1015 && cs[0] < 3000 {
				t.Fatal(code, n, cs)
			}
		}
	}
}
''')
seed('C03-empty-flush', 'C03', 'a Flush before anything was written to the message (or a Write of exactly the buffer size followed by Flush twice)',
     'an empty first fragment is not counted, so the next fragment starts a second message inside the first',
     [['conn_write.go', '''	w.flushCount++
''', '''	if w.used > MaxHeaderSize {
		w.flushCount++
	}
''']],
     '''
import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	for i := 0; i < 4; i++ {
		c, m := vNew(t, &Options{WriteBufferSize: 64 + MaxHeaderSize})
		w, err := c.NextWriter(context.Background(), OpcodeText)
		if err != nil {
			t.Fatal(err)
		}
		for j := 0; j < 4; j++ {
			if i == j {
				w.Flush()
			}
			w.Write(vPattern(10))
			w.Flush()
		}
		if err := w.Close(); err != nil {
			t.Fatal(err)
		}
		if ms := m.messages(t); len(ms) != 1 || !ms[0].fin || len(ms[0].data) != 40 {
			t.Fatal(ms)
		}
	}
}
''')
seed('C04-close-nolock', 'C04', 'a close while another goroutine is inside a write of the transport',
     'the close frame is written without waiting for the write that is going on',
     [['conn_write.go', '''	cw.conn.writeLock.forceLock()
''', '''	_ = cw.conn.writeLock.lock()
''']],
     '''
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	c, m := vNew(t, nil)
	in, out := make(chan struct{}), make(chan struct{})
	m.mu.Lock()
	m.onWrite = func(b []byte) (int, error, bool) {
		if b[0]&15 == 2 {
			close(in)
			<-out
		}
		return 0, nil, false
	}
	m.mu.Unlock()
	go c.SendBytes(nil, vPattern(20))
	<-in
	go c.Close()
	time.Sleep(100 * time.Millisecond)
	m.mu.Lock()
	bad := m.overlap
	m.mu.Unlock()
	close(out)
	if bad {
		t.Fatal("two writes of the transport at once")
	}
}
''')
seed('C11-125', 'C11', 'a ping with a payload of exactly 125 bytes',
     'the pong of a ping with the longest payload is empty',
     [['conn_write.go', 'if n > 0 && n <= MaxControlFramePayload {', 'if n > 0 && n < MaxControlFramePayload {']],
     '''
import "testing"

func TestDemo(t *testing.T) {
	for _, n := range []int{0, 1, 124, 125} {
		p := string(vPattern(n))
		c, m := vNew(t, nil, vF(true, 9, p), vF(true, 1, "x"))
		if b, err := c.ReadString(); err != nil || string(b) != "x" {
			t.Fatal(n, err)
		}
		fs := m.frames(t)
		if len(fs) != 1 || fs[0].op != 10 || fs[0].payload != p {
			t.Fatal(n, fs)
		}
	}
}
''')
seed('C11-ping-again', 'C11', 'a pong that answers no outstanding ping and has a payload',
     'an unsolicited pong with a payload counts as the answer to an outstanding ping',
     [['conn_utils.go', 'return bytes.Equal(p1, p2)', 'return bytes.HasPrefix(p2, p1)']],
     '''
import "testing"

func TestDemo(t *testing.T) {
	c, _ := vNew(t, nil)
	if err := c.Ping(); err != nil {
		t.Fatal(err)
	}
	m := c.raw.(*vT)
	m.feed(vF(true, 10, "not yours"), vF(true, 1, "x"))
	if _, err := c.ReadString(); err != nil {
		t.Fatal(err)
	}
	if err := c.Ping(); err != ErrPingAlreadySent {
		t.Fatal(err)
	}
	m.feed(vF(true, 10, ""), vF(true, 1, "y"))
	if _, err := c.ReadString(); err != nil {
		t.Fatal(err)
	}
	if err := c.Ping(); err != nil {
		t.Fatal(err)
	}
}
''')
seed('C14-len16', 'C14', 'a transport that fails inside the 16-bit extended length of a frame',
     'a failed read of the extended length is reported as fatal although the connection is left open',
     [['conn_read.go', '''			b, err := conn.nRead(2)
			if err != nil {
				conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
				return nilOpcode, err''', '''			b, err := conn.nRead(2)
			if err != nil {
				return nilOpcode, err''']],
     '''
import "testing"

func TestDemo(t *testing.T) {
	full := vF(true, 1, string(vPattern(300)))
	for cut := 1; cut < 12; cut++ {
		c, m := vNew(t, nil)
		m.mu.Lock()
		m.in, m.rerr, m.block = full[:cut], errV, false
		m.mu.Unlock()
		_, _, err := c.ReadMessage()
		if !IsFatalErr(err) || !vDone(c) {
			t.Fatal(cut, err, vDone(c))
		}
	}
}
''')
seed('C14-flush-deadline', 'C14', 'a transport whose write fails after taking the whole frame',
     'a failed write of a continuation frame is reported without closing the connection',
     [['conn_write.go', '''	return conn.SendMessage(ctx, OpcodeBinary, p)''', '''	err := conn.SendMessage(ctx, OpcodeBinary, p)
	if err != nil && !IsFatalErr(err) && len(p) == 0 {
		return fatal(err)
	}
	return err''']],
     '''
import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, p := range [][]byte{nil, {1}} {
		c, _ := vNew(t, nil)
		w, err := c.NextWriter(context.Background(), OpcodeText)
		if err != nil {
			t.Fatal(err)
		}
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		if err := c.SendBytes(ctx, p); IsFatalErr(err) && !vDone(c) {
			t.Fatal("fatal, but open")
		}
		w.Close()
	}
}
''')
seed('C06-rsv', 'C06', 'a frame with RSV2 set and RSV3 clear',
     'one reserved bit alone is accepted',
     [['conn_read.go', '(rsv1 | rsv2 | rsv3) != 0', '(rsv1 | rsv2&(rsv3<<1)) != 0']],
     '''
import "testing"

func TestDemo(t *testing.T) {
	for i := byte(1); i < 8; i++ {
		c, m := vNew(t, nil, vRaw(0x81|i<<4, true, "x"))
		_, _, err := c.ReadMessage()
		if _, ok := err.(*FatalError); err == nil || !ok && !vDone(c) {
			t.Fatal(i, err)
		}
		if cs := m.closeCodes(t); len(cs) != 1 || cs[0] != 1002 {
			t.Fatal(i, cs)
		}
	}
}
''')
seed('C06-len64', 'C06', 'a frame with a 64-bit length whose top bit is set',
     'the top bit of a 64-bit length is ignored, so the frame is read with another length',
     [['conn_read.go', 'if n64 > math.MaxInt {', 'if n64&math.MaxInt > math.MaxInt {'], ['conn_read.go', 'n = int(n64)', 'n = int(n64 & math.MaxInt)']],
     '''
import "testing"

func TestDemo(t *testing.T) {
	c, _ := vNew(t, nil, []byte{0x82, 0xff, 0x80, 0, 0, 0, 0, 0, 0, 3, 0, 0, 0, 0, 'a', 'b', 'c'})
	_, b, err := c.ReadMessage()
	if err == nil {
		t.Fatalf("%q", b)
	}
}
''')
seed('C07-rot', 'C07', 'a read that ends inside a 4-byte group of a frame, followed by a read of 8 bytes or more',
     'the key is rotated the wrong way round for positions 1 and 3',
     [['mask.go', '''	for i := 0; i < initialRotations; i++ {
		key32 = bits.RotateLeft32(key32, -8)''', '''	for i := 0; i < initialRotations; i++ {
		key32 = bits.RotateLeft32(key32, 8)''']],
     '''
import (
	"io"
	"testing"
)

func TestDemo(t *testing.T) {
	p := vPattern(300)
	c, _ := vNew(t, nil, vF(true, 2, string(p)))
	r, _, err := c.NextReader()
	if err != nil {
		t.Fatal(err)
	}
	var out []byte
	for n := 1; ; n = n%17 + 1 {
		b := make([]byte, n)
		k, err := r.Read(b)
		out = append(out, b[:k]...)
		if err == io.EOF {
			break
		}
		if err != nil {
			t.Fatal(err)
		}
	}
	if string(out) != string(p) {
		t.Fatal("payload altered")
	}
}
''')
seed('C07-eofdata', 'C07', 'a transport read that delivers data together with an error',
     'bytes that were delivered together with an error are handed over masked',
     [['conn_read.go', '''		if r.isMasked {
			r.mask(p[n-rn : n])''', '''		if r.isMasked && err == nil {
			r.mask(p[n-rn : n])''']],
     '''
import (
	"io"
	"testing"
)

func TestDemo(t *testing.T) {
	p := vPattern(9000)
	b := vF(true, 2, string(p))
	c, m := vNew(t, nil, b[:8])
	r, _, err := c.NextReader()
	if err != nil {
		t.Fatal(err)
	}
	m.mu.Lock()
	m.in = append(m.in, b[8:len(b)-500]...)
	m.rerr = errV
	m.mu.Unlock()
	var out []byte
	buf := make([]byte, 20000) // larger than the connection's buffer: read directly
	for err == nil {
		var k int
		k, err = r.Read(buf)
		out = append(out, buf[:k]...)
	}
	if err == io.EOF || string(out) != string(p[:len(out)]) {
		t.Fatal("altered", len(out), err)
	}
}
''')
seed('C08-skipone', 'C08', 'a fragmented message abandoned in its first frame, followed by another message',
     'after the unread part of one continuation frame the skipping stops, so a fragment is taken for the start of a message',
     [['conn_utils.go', '''		if _, err = conn.readBuf.Discard(conn.reader.remaining); err != nil {''',
       '''		if _, err = conn.readBuf.Discard(min(conn.reader.remaining, conn.readBuf.Size())); err != nil {''']],
     '''
import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	c, _ := vNew(t, nil, vF(false, 1, "abc"), vF(false, 0, strings.Repeat("\\x00d", 3000)), vF(true, 0, "e"), vF(true, 1, "next"))
	if _, _, err := c.NextReader(); err != nil {
		t.Fatal(err)
	}
	b, err := c.ReadString()
	if err != nil || string(b) != "next" {
		t.Fatal(string(b), err)
	}
}
''')
seed('C09-frag0', 'C09', 'a fragmented message whose fragments are all within the frame limit but whose total is not',
     'the size limit is only checked per frame when the message is read as a stream with empty fragments in it',
     [['conn_read.go', '''		conn.reader.fragments++
''', '''		if n > 0 {
			conn.reader.fragments++
		}
''']],
     '''
import "testing"

func TestDemo(t *testing.T) {
	in := [][]byte{vF(false, 1, "a")}
	for i := 0; i < 20; i++ {
		in = append(in, vF(false, 0, ""))
	}
	in = append(in, vF(true, 0, "b"))
	c, m := vNew(t, &Options{ReaderMaxFragments: 4}, in...)
	if _, _, err := c.ReadMessage(); err == nil {
		t.Fatal("accepted")
	}
	if cs := m.closeCodes(t); len(cs) != 1 || cs[0] != 1008 {
		t.Fatal(cs)
	}
}
''')
seed('C10-utf8', 'C10', 'a text message longer than 4096 bytes whose invalid bytes come after the first 4096',
     'only the first 4096 bytes of a text are validated',
     [['conn_read.go', '''!utf8.Valid(data) {''', '''!utf8.Valid(data[:min(len(data), 4096)]) {''']],
     '''
import "testing"

func TestDemo(t *testing.T) {
	for _, s := range []string{string(make([]byte, 4096)) + "\\xff", "a\\xff", "\\xe2\\x82", "abcdef\\xf0\\x9f\\x98", "\\xc0\\x80"} {
		c, m := vNew(t, nil, vF(true, 1, s))
		if _, _, err := c.ReadMessage(); err == nil {
			t.Fatalf("%q accepted", s)
		}
		if cs := m.closeCodes(t); len(cs) != 1 || cs[0] != 1007 {
			t.Fatal(cs)
		}
	}
}
''')
seed('C10-type', 'C10', 'a binary message read by ReadString that is not valid UTF-8',
     'a binary message is refused as invalid text and the connection is closed, where a type mismatch is due',
     [['conn_read.go', '''	if msgType == OpcodeText && !conn''', '''	if msgType != OpcodeContinuation && !conn''']],
     '''
import "testing"

func TestDemo(t *testing.T) {
	c, _ := vNew(t, nil, vF(true, 2, "\\xff\\xfe"), vF(true, 1, "x"))
	if _, err := c.ReadString(); err != ErrMessageTypeMismatch {
		t.Fatal(err)
	}
	if b, err := c.ReadString(); err != nil || string(b) != "x" {
		t.Fatal(err)
	}
}
''')
seed('C12-echo', 'C12', 'a close frame whose reason is a valid prefix followed by invalid UTF-8 in its last byte',
     'the last byte of the reason is not validated',
     [['conn.go', '''		if !utf8.Valid(payload[2:]) {''', '''		if !utf8.Valid(payload[2 : len(payload)-len(payload)/125]) {''']],
     '''
import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, n := range []int{0, 1, 50, 121, 122} {
		c, m := vNew(t, nil, vF(true, 8, "\\x03\\xe8"+strings.Repeat("r", n)+"\\xff"))
		c.ReadMessage()
		if cs := m.closeCodes(t); len(cs) != 1 || cs[0] != 1002 {
			t.Fatal(n, cs)
		}
	}
}
''')
seed('C12-code', 'C12', 'a close frame with the code 5000',
     'codes outside the allowed set are accepted and echoed',
     [['frame.go', 'if code >= 3000 && code <= 4999 {', 'if code >= 3000 && code <= 5000 {']], '''
import "testing"

func TestDemo(t *testing.T) {
	for _, code := range []int{0, 999, 1000, 1003, 1004, 1005, 1006, 1007, 1011, 1012, 1013, 1014, 1015, 2999, 3000, 4999, 5000, 65535} {
		c, m := vNew(t, nil, vF(true, 8, string([]byte{byte(code >> 8), byte(code)})))
		c.ReadMessage()
		want := 1002
		if code >= 1000 && code <= 1003 || code >= 1007 && code <= 1011 || code >= 3000 && code <= 4999 {
			want = code
		}
		if cs := m.closeCodes(t); len(cs) != 1 || cs[0] != want {
			t.Fatal(code, cs)
		}
	}
}
''')
seed('C23-refill', 'C23', 'a limiter whose burst differs from its rate',
     'the bucket holds as many tokens as the rate instead of the burst',
     [['rate_limiter.go', 'rate.NewLimiter(rate.Limit(rl.mps), rl.burst)', 'rate.NewLimiter(rate.Limit(rl.mps), max(rl.burst, rl.mps))']],
     '''
import "testing"

func TestDemo(t *testing.T) {
	u := NewUpgrader(vOpts(nil))
	u.Limiter = NewRateLimiter(5, 2)
	var in [][]byte
	for i := 0; i < 8; i++ {
		in = append(in, vF(true, 1, "x"))
	}
	c, _ := vDial(t, u, in...)
	ok := 0
	for i := 0; i < 5; i++ {
		if _, err := c.ReadString(); err == nil {
			ok++
		}
	}
	if ok != 2 {
		t.Fatal(ok)
	}
}
''')
seed('C23-nextmsg', 'C23', 'a rate-limited fragmented message followed by another one',
     'only the first frame of a limited message is dropped',
     [['conn_read.go', '''		if err := conn.skipRestOfMessage(); err != nil {
			return nil, nilOpcode, fatal(err)
		}
		return nil, nilOpcode, errors.New("rate limited")''' if False else '''	ok, err := conn.allow()
	if err != nil {
		return nil, nilOpcode, fatal(err)
	} else if !ok {''', '''	ok, err := conn.allow()
	if err != nil {
		return nil, nilOpcode, fatal(err)
	} else if !ok && conn.reader.remaining > 0 {''']],
     '''
import (
	"io"
	"testing"
)

func TestDemo(t *testing.T) {
	u := NewUpgrader(vOpts(nil))
	u.Limiter = NewRateLimiter(0, 1)
	c, _ := vDial(t, u, vF(true, 1, "a"), vF(false, 1, ""), vF(true, 0, "over the limit"))
	if _, err := c.ReadString(); err != nil {
		t.Fatal(err)
	}
	r, _, err := c.NextReader()
	if err == nil {
		b, _ := io.ReadAll(r)
		t.Fatalf("delivered %q", b)
	}
}
''')
seed('C18-exclude2', 'C18', 'a listing or broadcast of the manager with two or more excluded keys',
     'only the first excluded key is left out',
     [['manager.go', '''	conns := make([]*Conn, 0, len(m.conns))
	for k, v := range m.conns {
		if !slices.Contains(exclude, k) {''', '''	conns := make([]*Conn, 0, len(m.conns))
	for k, v := range m.conns {
		if len(exclude) == 0 || exclude[0] != k {''']],
     '''
import "testing"

func TestDemo(t *testing.T) {
	u := NewUpgrader(vOpts(nil))
	m := NewManager[int](u)
	for i := 0; i < 5; i++ {
		c, _ := vDial(t, u)
		m.Register(i, m.newManagedConn(c, i))
	}
	for n, ex := range [][]int{5: nil, 4: {2}, 3: {2, 4}, 2: {0, 1, 2}, 1: {0, 1, 2, 3}, 0: {0, 1, 2, 3, 4}} {
		if got := len(m.GetAllConnsAsConn(ex...)); got != n {
			t.Fatalf("%d connections without %v", got, ex)
		}
		if got, err := m.BroadcastString(nil, []byte("x"), ex...); got != n || err != nil {
			t.Fatal(got, ex, err)
		}
	}
}
''')
seed('C19-tworooms', 'C19', 'two goroutines that ask for the same new room at the same time',
     'the room is looked up and created in two critical sections: one of the two gets a room that is not the registered one',
     [['rooms_manager.go', '''	rm.mu.Lock()
	defer rm.mu.Unlock()

	if r, exists := rm.rooms[key]; exists {
		return r
	}

	r := rm.newRoom(key)
''', '''	if r := rm.Get(key); r != nil {
		return r
	}

	r := rm.newRoom(key)
	rm.mu.Lock()
	defer rm.mu.Unlock()
''']],
     '''
import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	rm := NewRoomManager[int](NewUpgrader(vOpts(nil)))
	for k := 0; k < 20000; k++ {
		var rs [4]*Room[int]
		var wg sync.WaitGroup
		start := make(chan int)
		for i := range rs {
			wg.Add(1)
			go func() { defer wg.Done(); <-start; rs[i] = rm.Add(k) }()
		}
		close(start)
		wg.Wait()
		for _, r := range rs {
			if r != rm.Get(k) {
				t.Fatal("a room that is not the registered one, key", k)
			}
		}
	}
}
''')
seed('C20-waitcount', 'C20', 'the wait policy, a full queue, and a target that closes while the broadcast waits for it',
     'the closed target is counted although its queue took nothing',
     [['broadcast.go', '''				case conn.broadcastQueue <- m:
					n++
				}
			default:
				panic(fmt.Errorf("unexpected backpressure strategy: %v", u.BroadcastBackpressure))
			}
		}
	}

	return n, nil
}

''' if False else '''				// inqueue again
				select {
				case <-ctx.Done():
					return n, ctx.Err()
				case <-conn.done: // it will never be read
				case conn.broadcastQueue <- m:
					n++
				}
''', '''				// inqueue again
				select {
				case <-ctx.Done():
					return n, ctx.Err()
				case <-conn.done: // it will never be read
				case conn.broadcastQueue <- m:
				}
				n++
''']],
     '''
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	u := NewUpgrader(vOpts(&Options{BroadcastBackpressure: BackpressureWait, BroadcastChannelsSize: 1}))
	c, m := vDial(t, u)
	hold := make(chan int)
	m.onWrite = func(b []byte) (int, error, bool) { <-hold; return 0, errV, true }
	rm := NewRoomManager[int](u)
	r := rm.Add(1)
	r.Add(c)
	sent := 0
	for len(c.broadcastQueue) == 0 || sent < 2 {
		n, err := r.BroadcastString(nil, []byte("x"))
		if err != nil {
			t.Fatal(err)
		}
		sent += n
		time.Sleep(20 * time.Millisecond)
	}
	time.AfterFunc(50*time.Millisecond, func() { close(hold) })
	if n, err := r.BroadcastString(nil, []byte("x")); err != nil {
		t.Fatal(err)
	} else if n != 0 {
		t.Fatal("counted", n)
	}
}
''')
seed('C21-ctx', 'C21', 'a message given to Batch after the context of the flusher is over',
     'the message is accepted, and never sent: the flusher has stopped',
     [['conn_batcher.go', '''	case <-conn.batch.flusher.ctx.Done():
		return conn.batch.flusher.ctx.Err()
	default:
	}

	conn.batch.mu.Lock()''', '''	default:
	}

	conn.batch.mu.Lock()''']],
     '''
import (
	"context"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	u := NewUpgrader(vOpts(nil))
	ctx, cancel := context.WithCancel(context.Background())
	u.EnablePrefixBatching(ctx, time.Hour)
	c, _ := vDial(t, u)
	if err := c.Batch([]byte("a")); err != nil {
		t.Fatal(err)
	}
	cancel()
	if err := c.Batch([]byte("b")); err == nil {
		t.Fatal("accepted after the end of the context")
	}
}
''')
seed('C21-total', 'C21', 'two goroutines that batch on the same connection at the same time',
     'the message is appended after the lock of the batch is released, so messages are lost',
     [['conn_batcher.go', '''	conn.batch.messages = append(conn.batch.messages, data)
	conn.batch.totalSize += len(data)
	conn.batch.mu.Unlock()
''', '''	conn.batch.totalSize += len(data)
	conn.batch.mu.Unlock()
	conn.batch.messages = append(conn.batch.messages, data)
''']],
     '''
import (
	"fmt"
	"sync"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	u := NewUpgrader(vOpts(nil))
	u.EnablePrefixBatching(nil, time.Hour)
	c, _ := vDial(t, u)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 20000; k++ {
				if err := c.Batch([]byte(fmt.Sprint(g, k))); err != nil {
					t.Error(err)
					return
				}
			}
		}()
	}
	wg.Wait()
	if n := len(c.batch.messages); n != 160000 {
		t.Fatal("messages lost", 160000-n)
	}
}
''')
seed('C22-len16', 'C22', 'a message of more than 65535 bytes in a length-prefixed batch',
     'its length prefix holds only the low 16 bits of the length',
     [['conn_batcher.go', 'if _, err := w.Write(binary.BigEndian.AppendUint32(lengthPrefix, uint32(len(msg)))); err != nil {', 'if _, err := w.Write(binary.BigEndian.AppendUint32(lengthPrefix, uint32(uint16(len(msg))))); err != nil {']],
     '''
import (
	"encoding/binary"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	for _, n := range []int{1, 200, 65535, 65536, 70000} {
		u := NewUpgrader(vOpts(nil))
		u.EnablePrefixBatching(nil, time.Hour)
		c, m := vDial(t, u)
		if err := c.Batch(vPattern(n)); err != nil {
			t.Fatal(err)
		}
		u.Flusher.Close()
		for i := 0; i < 200 && len(m.messages(t)) == 0; i++ {
			time.Sleep(5 * time.Millisecond)
		}
		got := []byte(m.messages(t)[0].data)
		if len(got) != n+4 || int(binary.BigEndian.Uint32(got)) != n {
			t.Fatal(n, len(got), got[:4])
		}
	}
}
''')
seed('C22-emptymsg', 'C22', 'an empty message that is not the first of a JSON batch',
     'the comma before it is left out',
     [['conn_batcher.go', '''		if i != 0 {
			if _, err := w.Write(comma); err != nil {''', '''		if i != 0 && len(msg) != 0 {
			if _, err := w.Write(comma); err != nil {''']],
     '''
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	u := NewUpgrader(vOpts(nil))
	u.EnableJSONBatching(nil, time.Hour)
	c, m := vDial(t, u)
	for _, x := range []string{"1", "2", "", "3"} {
		if err := c.Batch([]byte(x)); err != nil {
			t.Fatal(err)
		}
	}
	u.Flusher.Close()
	for i := 0; i < 200 && len(m.messages(t)) == 0; i++ {
		time.Sleep(5 * time.Millisecond)
	}
	if got := m.messages(t)[0].data; got != "[1,2,,3]" {
		t.Fatalf("%q", got)
	}
}
''')
seed('C05-emptyroom', 'C05', 'listing or broadcasting to a room without members',
     'the lock of the room is not released on the early return: the next operation on the room waits for ever',
     [['rooms_manager.go', '''	r.mu.Lock()
	defer r.mu.Unlock()

	if len(r.conns) == 0 {
		return nil
	}

	conns := make([]*Conn, 0, len(r.conns))
	for c := range r.conns {
		if !slices.Contains(exclude, c) {
			conns = append(conns, c)
		}
	}
''', '''	r.mu.Lock()
	if len(r.conns) == 0 {
		return nil
	}

	conns := make([]*Conn, 0, len(r.conns))
	for c := range r.conns {
		if !slices.Contains(exclude, c) {
			conns = append(conns, c)
		}
	}
	r.mu.Unlock()
''']],
     '''
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	u := NewUpgrader(vOpts(nil))
	r := NewRoomManager[int](u).Add(1)
	r.GetAllConns()
	c, _ := vDial(t, u)
	if !vWithin(3*time.Second, func() { r.Add(c) }) {
		t.Fatal("joining blocks")
	}
	if len(r.GetAllConns()) != 1 {
		t.Fatal("not a member")
	}
}
''')
seed('C24-keys', 'C24', 'the room keys are listed while another goroutine adds or closes a room',
     'the map of rooms is read without its lock',
     [['rooms_manager.go', '''	rm.mu.RLock()
	defer rm.mu.RUnlock()

	keys := make([]keyType, 0, len(rm.rooms))
	for k := range rm.rooms {
''', '''	rm.mu.RLock()
	keys := make([]keyType, 0, len(rm.rooms))
	rm.mu.RUnlock()

	for k := range rm.rooms {
''']],
     '''
import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	rm := NewRoomManager[int](NewUpgrader(vOpts(nil)))
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 500; i++ {
			rm.Add(i)
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 500; i++ {
			rm.GetRoomKeys()
		}
	}()
	wg.Wait()
}
''', race=True)
seed('C25-unreg', 'C25', 'an OnUnregister hook that uses the manager',
     'the hook is called with the lock of the manager held',
     [['manager.go', '''	delete(m.conns, id)
	m.mu.Unlock()

	if m.OnUnregister != nil {
		m.OnUnregister(conn)
	}

	return nil''', '''	delete(m.conns, id)

	if m.OnUnregister != nil {
		m.OnUnregister(conn)
	}
	m.mu.Unlock()

	return nil''']],
     '''
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	u := NewUpgrader(vOpts(nil))
	m := NewManager[int](u)
	left := -1
	m.OnUnregister = func(c *ManagedConn[int]) { left = len(m.GetAllConns()) }
	c, _ := vDial(t, u)
	m.Register(1, m.newManagedConn(c, 1))
	if !vWithin(3*time.Second, func() { c.Close() }) {
		t.Fatal("the close blocks")
	}
	if left != 0 {
		t.Fatal(left)
	}
}
''')
seed('C28-listener', 'C28', 'a connection with broadcasting that closes while no broadcast is queued',
     'its broadcast listener waits for ever',
     [['broadcast.go', '''		select {
		case <-conn.done:
			// drain the channel (this will make the GC clean the channel faster)
			for len(conn.broadcastQueue) > 0 {
				<-conn.broadcastQueue
			}
			return
		case m, ok := <-conn.broadcastQueue:
			if !ok {
				return
			}
			if err := m.writeToConn(conn); IsFatalErr(err) {
				fmt.Println(err)
				return
			}
		}
''', '''		m, ok := <-conn.broadcastQueue
		if !ok {
			return
		}
		if err := m.writeToConn(conn); err != nil {
			select {
			case <-conn.done:
				return
			default:
			}
			if IsFatalErr(err) {
				fmt.Println(err)
				return
			}
		}
''']],
     '''
import (
	"runtime"
	"strings"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	u := NewUpgrader(vOpts(nil))
	r := NewRoomManager[int](u).Add(1)
	for i := 0; i < 5; i++ {
		c, _ := vDial(t, u)
		r.Add(c)
		r.BroadcastString(nil, []byte("x"))
		time.Sleep(5 * time.Millisecond)
		c.Close()
	}
	buf := make([]byte, 1<<20)
	for i := 0; i < 40; i++ {
		if !strings.Contains(string(buf[:runtime.Stack(buf, true)]), "broadcastListener") {
			return
		}
		time.Sleep(50 * time.Millisecond)
	}
	t.Fatal("listeners of closed connections")
}
''')
seed('C15-keylen', 'C15', 'a key that is valid base64 of more than 16 bytes',
     'a request with a key that is not 16 bytes long is upgraded',
     [['upgrader.go', 'if err != nil || len(decoded) != 16 {', 'if err != nil || len(decoded) < 16 {']],
     '''
import (
	"bufio"
	"encoding/base64"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	for n := 0; n < 40; n++ {
		m := &vT{block: true, closedC: make(chan struct{})}
		r := vReq()
		r.Header.Set("Sec-WebSocket-Key", base64.StdEncoding.EncodeToString(make([]byte, n)))
		c, err := NewUpgrader(vOpts(nil)).Upgrade(&vHijack{httptest.NewRecorder(), m, bufio.NewReader(m)}, r)
		if (err == nil) != (n == 16) || (c != nil) != (n == 16) {
			t.Fatal(n, err)
		}
		if c != nil {
			c.Close()
		}
	}
}
''')
seed('C15-mwlast', 'C15', 'a middleware error wrapped in a MiddlewareErr whose code is below 400',
     'a request refused by a middleware with such a code is upgraded all the same',
     [['upgrader.go', 'if mwErr, ok := AsMiddlewareErr(err); ok {', 'if mwErr, ok := AsMiddlewareErr(err); ok && mwErr.Code < 400 {\n\t\t\t\t\tcontinue\n\t\t\t\t} else if ok {']],
     '''
import (
	"bufio"
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, code := range []int{301, 302, 400, 403, 500} {
		m := &vT{block: true, closedC: make(chan struct{})}
		u := NewUpgrader(vOpts(nil))
		u.Use(func(w http.ResponseWriter, r *http.Request) error { return NewMiddlewareErr(code, "no") })
		c, err := u.Upgrade(&vHijack{httptest.NewRecorder(), m, bufio.NewReader(m)}, vReq())
		if c != nil || err == nil {
			t.Fatal(code)
		}
	}
}
''')
seed('C16-untrimmed', 'C16', 'a list of subprotocols with a space after the comma, in which the chosen one is not the first',
     'the response and the connection report the subprotocol with the space, a name the server does not support',
     [['upgrader.go', '			return strings.TrimSpace(header)', '			return header']],
     '''
import (
	"bufio"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, h := range []string{"chat", "x,chat", "x, chat", "x ,\\tchat , y"} {
		m := &vT{block: true, closedC: make(chan struct{})}
		r := vReq()
		r.Header["Sec-Websocket-Protocol"] = []string{h}
		c, err := NewUpgrader(vOpts(&Options{SubProtocols: []string{"a", "chat"}})).Upgrade(&vHijack{httptest.NewRecorder(), m, bufio.NewReader(m)}, r)
		if err != nil || c.SubProtocol != "chat" {
			t.Fatalf("%q: %v %q", h, err, c.SubProtocol)
		}
		c.Close()
	}
}
''')
seed('C16-raw', 'C16', 'a client without subprotocols in front of a server that has some',
     'the response has an empty Sec-WebSocket-Protocol header, which the client must refuse',
     [['upgrader.go', '	if subProtocol != "" {\n		p = append', '	if u.SubProtocols != nil {\n		p = append']],
     '''
import (
	"bufio"
	"net/http/httptest"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, sp := range [][]string{nil, {"a"}} {
		m := &vT{block: true, closedC: make(chan struct{})}
		c, err := NewUpgrader(vOpts(&Options{SubProtocols: sp})).Upgrade(&vHijack{httptest.NewRecorder(), m, bufio.NewReader(m)}, vReq())
		if err != nil {
			t.Fatal(err)
		}
		m.mu.Lock()
		s := string(m.writes[0])
		m.mu.Unlock()
		if strings.Contains(s, "Protocol:") {
			t.Fatalf("%q", s)
		}
		c.Close()
	}
}
''')
seed('C17-early', 'C17', 'more early data than one read of the connection takes, with a read buffer of another size than the HTTP server\'s',
     'the rest of the bytes the HTTP server had already read is dropped',
     [['upgrader.go', '		if b.br.Buffered() == 0 {', '		if b.br.Buffered() < len(p) {']],
     '''
import (
	"bufio"
	"net/http/httptest"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	for _, n := range []int{10, 100, 150, 300, 1000, 4000} {
		data := append(vF(true, 2, string(vPattern(n))), vF(true, 1, "end")...)
		m := &vT{block: true, closedC: make(chan struct{})}
		br := bufio.NewReader(m)
		m.feed(data)
		br.Peek(len(data))
		c, err := NewUpgrader(vOpts(&Options{ReadBufferSize: 200})).Upgrade(&vHijack{httptest.NewRecorder(), m, br}, vReq())
		if err != nil {
			t.Fatal(err)
		}
		var a, b []byte
		if !vWithin(5*time.Second, func() {
			if a, err = c.ReadBinary(); err == nil {
				b, err = c.ReadString()
			}
		}) || err != nil || string(a) != string(vPattern(n)) || string(b) != "end" {
			t.Fatal(n, err)
		}
		c.Close()
	}
}
''')
seed('C26-pooled', 'C26', 'an HTTP server whose write buffer has another size than the configured one, larger',
     'the connection writes with the HTTP server\'s buffer, not one of the configured size',
     [['conn_write.go', 'if cap(b) == conn.upgrader.WriteBufferSize {', 'if cap(b) >= conn.upgrader.WriteBufferSize {']],
     '''
import "testing"

func TestDemo(t *testing.T) {
	for _, n := range []int{100, 2048, 4096, 5000} {
		u := NewUpgrader(vOpts(&Options{WriteBufferSize: n}))
		c, _ := vDial(t, u)
		if len(c.writer.buf) != n {
			t.Fatal(n, len(c.writer.buf))
		}
		c.Close()
	}
}
''')
seed('C26-negative', 'C26', 'an option set to a negative value (no limit)',
     'the value the application set is replaced by the default',
     [['options.go', 'if opt.MaxMessageSize == 0 {', 'if opt.MaxMessageSize <= 0 {']],
     '''
import "testing"

func TestDemo(t *testing.T) {
	u := NewUpgrader(&Options{MaxMessageSize: -1, MaxBatchSize: -1})
	if u.MaxMessageSize != -1 || u.MaxBatchSize != -1 {
		t.Fatal(u.MaxMessageSize, u.MaxBatchSize)
	}
}
''')
seed('C28-ping', 'C28', 'the connection closed between two pings, with a ping still unanswered',
     'the ping loop waits for the next tick only and, when the last ping was not answered, never ends',
     [['conn.go', '''			if err := conn.Ping(); err != nil && err != ErrPingAlreadySent {''', '''			if conn.pingSent.Load() {
				<-ticker.C
			}
			if err := conn.Ping(); err != nil && err != ErrPingAlreadySent {''']],
     '''
import (
	"runtime"
	"strings"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	o := vOpts(nil)
	o.PingEvery = 300 * time.Millisecond
	c, _ := vDial(t, NewUpgrader(o))
	time.Sleep(700 * time.Millisecond) // one ping without an answer, the loop has seen it
	c.Close()
	time.Sleep(100 * time.Millisecond)
	buf := make([]byte, 1<<20)
	if strings.Contains(string(buf[:runtime.Stack(buf, true)]), "pingLoop") {
		t.Fatal("ping loop of a closed connection")
	}
}
''')
seed('C27-replaced', 'C27', 'a hook that runs during Shutdown and registers new connections under the keys of tracked ones',
     'a worker closes a connection only when it is still the one registered under its key: the replaced one stays open',
     [['manager.go', '''			for conn := range ch {
				conn.Close()
			}
			wg.Done()''', '''			for conn := range ch {
				// someone may have reconnected under the key, the old one was taken care of then
				if current := m.Get(conn.Key); current == nil || current == conn {
					conn.Close()
				}
			}
			wg.Done()''']],
     '''
import (
	"sync/atomic"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	m := NewManager[int](NewUpgrader(vOpts(nil)))
	const n = 40
	var cs []*Conn
	var first atomic.Bool
	reconnected := make(chan struct{})
	for i := 0; i < n; i++ {
		c, x := vDial(t, m.Upgrader)
		m.Register(i, &ManagedConn[int]{Conn: c, Manager: m, Key: i})
		x.mu.Lock()
		x.onWrite = func([]byte) (int, error, bool) { // the first close is quick, the others are slow
			if first.Swap(true) {
				<-reconnected
			}
			return 0, nil, false
		}
		x.mu.Unlock()
		cs = append(cs, c)
	}
	var once atomic.Bool
	m.OnUnregister = func(*ManagedConn[int]) {
		if once.CompareAndSwap(false, true) {
			// clients reconnect under the keys of connections not closed yet
			for i := 0; i < n; i++ {
				if m.Get(i) == nil {
					continue
				}
				c, _ := vDial(t, m.Upgrader)
				m.Register(i, &ManagedConn[int]{Conn: c, Manager: m, Key: i})
			}
			close(reconnected)
		}
	}
	if !vWithin(5*time.Second, m.Shutdown) {
		t.Fatal("Shutdown did not return")
	}
	for i, c := range cs {
		if !vDone(c) {
			t.Fatalf("connection %d tracked by Shutdown is not closed", i)
		}
	}
}
''')
seed('C27-wgadd', 'C27', 'the goroutines of the workers start after everything was put in the channel (few connections, or a busy machine)',
     'a worker counts itself: Shutdown can return, the connections still open, before any was counted',
     [['manager.go', '''		wg.Add(1)
		go func() {
			for conn := range ch {
				conn.Close()''', '''		go func() {
			wg.Add(1)
			for conn := range ch {
				conn.Close()''']],
     '''
import (
	"runtime"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(1)
	for round := 0; round < 300; round++ {
		m := NewManager[int](NewUpgrader(vOpts(nil)))
		var ms []*vT
		for i := 0; i < 2; i++ {
			c, x := vDial(t, m.Upgrader)
			m.Register(i, &ManagedConn[int]{Conn: c, Manager: m, Key: i})
			ms = append(ms, x)
		}
		done := make(chan bool)
		go func() {
			m.Shutdown()
			for i, x := range ms {
				if !x.isClosed() {
					t.Errorf("round %d: connection %d open after Shutdown", round, i)
				}
			}
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			t.Fatal("Shutdown did not return")
		}
		if t.Failed() {
			return
		}
	}
}
''')
seed('C27-code', 'C27', 'a room shut down while a ping to a member is unanswered',
     'members with an unanswered ping are closed without the code of the shutdown',
     [['rooms_manager.go', '''				c.CloseWithCode(CloseGoingAway, "server is shutting down")
''', '''				if c.pingSent.Load() {
					c.Close() // does not answer any more
				} else {
					c.CloseWithCode(CloseGoingAway, "server is shutting down")
				}
''']],
     '''
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	rm := NewRoomManager[string](NewUpgrader(vOpts(nil)))
	r := rm.Add("a")
	c, x := vDial(t, rm.Upgrader)
	r.Add(c)
	if err := c.Ping(); err != nil {
		t.Fatal(err)
	}
	if !vWithin(5*time.Second, rm.Shutdown) {
		t.Fatal("Shutdown did not return")
	}
	if cs := x.closeCodes(t); len(cs) != 1 || cs[0] != int(CloseGoingAway) {
		t.Fatal("close codes ", cs)
	}
}
''')
