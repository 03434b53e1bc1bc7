package snapws

// Drivers: they look for a failing input once an obligation of a property is not discharged (and in thorough runs).

import (
	"bufio"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
	"unicode/utf8"
)

// ---------------------------------------------------------------- sending

type rOnOff struct {
	context.Context
	mu  sync.Mutex
	err error
	ch  chan struct{}
}

func (o *rOnOff) Done() <-chan struct{} { o.mu.Lock(); defer o.mu.Unlock(); return o.ch }
func (o *rOnOff) Err() error            { o.mu.Lock(); defer o.mu.Unlock(); return o.err }
func (o *rOnOff) set(on bool) {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.ch, o.err = make(chan struct{}), nil
	if on {
		close(o.ch)
		o.err = context.Canceled
	}
}

// random histories of sends with failures of the transport and contexts that end
func rSend(t *testing.T) {
	sizes := []int{1, 2, 15, 16, 64, 125 + 14, 126 + 14, 200, 4096}
	for it := 0; it < 300; it++ {
		rnd := rand.New(rand.NewSource(int64(it)))
		size := sizes[rnd.Intn(len(sizes))]
		c, m := vNew(t, &Options{WriteBufferSize: size, DisableWriteBuffersPooling: rnd.Intn(2) == 0, MaxMessageSize: -1})
		fail := -1
		if rnd.Intn(3) == 0 {
			fail = rnd.Intn(12)
		}
		partial := rnd.Intn(2)
		n, dl := 0, rnd.Intn(2) == 0
		m.mu.Lock()
		if dl {
			m.onDL = func() error {
				n++
				if fail >= 0 && n > fail {
					return errV
				}
				return nil
			}
		} else {
			m.onWrite = func(b []byte) (int, error, bool) {
				n++
				if fail >= 0 && n > fail {
					return partial * min(len(b), 1), errV, true
				}
				return 0, nil, false
			}
		}
		m.mu.Unlock()
		var want []vMsg
		ok := vWithin(10*time.Second, func() {
			for k := 0; k < 6; k++ {
				op := byte(1 + rnd.Intn(2))
				data := vPattern([]int{0, 1, 5, 111, 112, 113, 125, 126, 127, size, size * 2, 700, 65535, 65536}[rnd.Intn(14)])
				if size < 100 {
					data = data[:min(len(data), 700)]
				}
				var err error
				switch rnd.Intn(6) {
				case 0:
					err = c.SendMessage(nil, op, data)
				case 1:
					op = 1
					err = c.SendString(context.Background(), data)
				case 2:
					op = 2
					err = c.SendBytes(nil, data)
				case 3:
					op = 1
					s := strings.Repeat("j", rnd.Intn(300))
					data, _ = json.Marshal(s)
					data = append(data, '\n')
					err = c.SendJSON(nil, s)
				case 4:
					err = c.Ping()
					if err == ErrPingAlreadySent {
						c.pingSent.Store(false)
						err = nil
					}
					op = 0
				default:
					var w *ConnWriter
					ctx := &rOnOff{Context: context.Background()}
					ctx.set(false)
					if w, err = c.NextWriter(ctx, op); err != nil {
						break
					}
					for rest := data; len(rest) > 0 && err == nil; {
						k := min(len(rest), 1+rnd.Intn(40)*rnd.Intn(40))
						var j int
						j, err = w.Write(rest[:k])
						if j > k || err == nil && j != k {
							t.Errorf("Write took %d of %d", j, k)
							return
						}
						rest = rest[j:]
						if err == nil && rnd.Intn(6) == 0 {
							err = w.Flush()
						}
					}
					if e := w.Close(); err == nil {
						err = e
					}
				}
				if err != nil {
					if IsFatalErr(err) != vDone(c) && IsFatalErr(err) {
						t.Errorf("it %d: fatal error, but the connection is open: %v", it, err)
					}
					want = append(want, vMsg{op: op, data: string(data), fin: false})
					break
				}
				if op != 0 {
					want = append(want, vMsg{op, string(data), true})
				}
			}
		})
		if !ok {
			t.Fatalf("it %d: a send blocks (size %d, failing call %d, partial %d, deadline %v)", it, size, fail, partial, dl)
		}
		if fail >= 0 && partial == 1 && !dl {
			continue
		}
		got := m.messages(t)
		for i, g := range got {
			if i >= len(want) || g.op != want[i].op || !strings.HasPrefix(want[i].data, g.data) || want[i].fin && (g.data != want[i].data || !g.fin) || g.fin && g.data != want[i].data {
				t.Fatalf("it %d: message %d altered (size %d, failing call %d): type %d, %d bytes, final %v", it, i, size, fail, g.op, len(g.data), g.fin)
			}
		}
		for i, w := range want {
			if w.fin && i >= len(got) {
				t.Fatalf("it %d: message %d of %d bytes is missing", it, i, len(w.data))
			}
		}
		fs := m.frames(t)
		for i, f := range fs {
			if f.op == 8 && i != len(fs)-1 {
				t.Fatalf("it %d: frame after the close frame", it)
			}
		}
	}
}
func TestReplay_C01(t *testing.T) { rSend(t); rClose(t); rRead(t); rBroadcast(t) }
func TestReplay_C02(t *testing.T) { rSend(t); rRetry(t) }
func TestReplay_C03(t *testing.T) { rSend(t); rRetry(t); rMix(t) }
func TestReplay_C04(t *testing.T) { rMix(t); rClose(t) }
func TestReplay_C05(t *testing.T) { rSend(t); rRetry(t); rMix(t); rClose(t); rHooks(t); rBroadcast(t) }

// a flush that fails because its context is over while the transport is busy can be repeated
func rRetry(t *testing.T) {
	for it := 0; it < 12; it++ {
		c, m := vNew(t, &Options{WriteBufferSize: 64 + MaxHeaderSize})
		hold, in := make(chan struct{}), make(chan struct{})
		m.mu.Lock()
		m.onWrite = func(b []byte) (int, error, bool) {
			if b[0]&15 == 9 {
				close(in)
				<-hold
			}
			return 0, nil, false
		}
		m.mu.Unlock()
		ctx := &rOnOff{Context: context.Background()}
		ctx.set(false)
		w, err := c.NextWriter(ctx, OpcodeBinary)
		if err != nil {
			t.Fatal(err)
		}
		p := vPattern([]int{0, 10, 63, 64, 65, 100, 128, 129, 300, 1, 192, 500}[it])
		n := 0
		if it%2 == 0 {
			n, err = w.Write(p[:len(p)/3])
			if err != nil {
				t.Fatal(err)
			}
		}
		go c.Ping()
		<-in
		ctx.set(true)
		sent := false
		if !vWithin(5*time.Second, func() {
			var k int
			k, err = w.Write(p[n:])
			n += k
			if err == nil {
				err = w.Flush()
				sent = err == nil
			}
		}) {
			t.Fatal("a write whose context is over blocks")
		}
		if sent {
			t.Fatal("flushed although the transport is busy")
		}
		close(hold)
		time.Sleep(5 * time.Millisecond)
		ctx.set(false)
		for n < len(p) {
			k, err := w.Write(p[n:])
			if err != nil {
				t.Fatal(err)
			}
			n += k
		}
		if err := w.Close(); err != nil {
			t.Fatal(err)
		}
		if ms := m.messages(t); len(ms) != 1 || ms[0].data != string(p) || !ms[0].fin {
			t.Fatalf("message of %d bytes altered", len(p))
		}
		if !vWithin(5*time.Second, func() { err = c.SendBytes(nil, p) }) || err != nil {
			t.Fatal("the next send blocks or fails", err)
		}
	}
}

// everything at once, over a slow transport
func rMix(t *testing.T) {
	for it := 0; it < 12; it++ {
		u := NewUpgrader(vOpts(&Options{WriteBufferSize: 64 + MaxHeaderSize, BroadcastBackpressure: BackpressureWait}))
		u.EnablePrefixBatching(nil, time.Millisecond)
		mg := NewManager[int](u)
		c, m := vDial(t, u)
		mg.Register(1, mg.newManagedConn(c, 1))
		m.mu.Lock()
		m.onWrite = func(b []byte) (int, error, bool) {
			time.Sleep(time.Duration(rand.Intn(200)) * time.Microsecond)
			return 0, nil, false
		}
		m.mu.Unlock()
		var wg sync.WaitGroup
		for i := 0; i < 6; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 8; k++ {
					switch i {
					case 0, 1:
						c.SendString(nil, []byte(strings.Repeat(string(rune('a'+i)), 200)))
					case 2:
						mg.BroadcastString(nil, []byte(strings.Repeat("c", 150)))
					case 3:
						c.Batch([]byte(strings.Repeat("d", 90)))
						time.Sleep(time.Millisecond)
					case 4:
						c.Ping()
						c.pingSent.Store(false)
					case 5:
						if it%3 == 0 && k == 5 {
							c.CloseWithCode(1000, "bye")
						}
						time.Sleep(time.Millisecond)
					}
				}
			}()
		}
		if !vWithin(20*time.Second, wg.Wait) {
			t.Fatal("a send blocks")
		}
		time.Sleep(5 * time.Millisecond)
		u.Flusher.Close()
		c.Close()
		m.mu.Lock()
		ov := m.overlap
		m.mu.Unlock()
		if ov {
			t.Fatal("two writes of the transport at once")
		}
		for i, g := range m.messages(t) {
			if g.fin && g.op == 1 && (len(g.data) != 200 && len(g.data) != 150 || strings.Trim(g.data, g.data[:1]) != "") {
				t.Fatalf("message %d mixes the data of several: %q", i, g.data)
			}
		}
		fs := m.frames(t)
		for i, f := range fs {
			if f.op == 8 && i != len(fs)-1 {
				t.Fatal("frame after the close frame")
			}
		}
	}
}

// ---------------------------------------------------------------- closing

func rValid(code int) bool {
	return code >= 1000 && code <= 1003 || code >= 1007 && code <= 1011 || code >= 3000 && code <= 4999
}
func rClose(t *testing.T) {
	for code := 0; code < 65536; code++ {
		if code > 5100 && code%977 != 0 && code != 65535 || code < 900 && code%97 != 0 || code > 1100 && code < 2900 && code%97 != 0 || code > 3100 && code < 4900 && code%97 != 0 {
			continue
		}
		reason := strings.Repeat("r", []int{0, 1, 5, 122, 123, 124, 200}[code%7])
		c, m := vNew(t, nil)
		c.CloseWithCode(uint16(code), reason)
		fs := m.frames(t)
		if len(fs) != 1 || fs[0].op != 8 {
			t.Fatal(code, "no close frame", fs)
		}
		got := int(binary.BigEndian.Uint16([]byte(fs[0].payload)))
		if !rValid(got) || rValid(code) && got != code || len(reason) <= 123 && fs[0].payload[2:] != reason {
			t.Fatalf("close with %d and a reason of %d bytes: sent %d, reason %q", code, len(reason), got, fs[0].payload[2:])
		}
		if err := c.SendBytes(nil, []byte("x")); !IsFatalErr(err) {
			t.Fatal("send after close:", err)
		}
	}
	// many closers
	for it := 0; it < 60; it++ {
		var disc, off int32
		u := NewUpgrader(vOpts(&Options{OnDisconnect: func(*Conn) { atomic.AddInt32(&disc, 1) }}))
		u.EnableJSONBatching(nil, time.Hour)
		u.Limiter = NewRateLimiter(5, 5)
		mg := NewManager[int](u)
		rm := NewRoomManager[int](u)
		mg.OnUnregister = func(*ManagedConn[int]) { atomic.AddInt32(&off, 1) }
		rm.DefaultOnLeave = func(*Room[int], *Conn, ...any) { atomic.AddInt32(&off, 1) }
		c, m := vDial(t, u)
		mg.Register(1, mg.newManagedConn(c, 1))
		rm.Add(1).Add(c)
		var w *ConnWriter
		if it%4 == 3 {
			w, _ = c.NextWriter(nil, 1)
		}
		var wg sync.WaitGroup
		for i := 0; i < 6; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				c.CloseWithCode(uint16(1000+i%3), "x")
			}()
		}
		if !vWithin(10*time.Second, wg.Wait) {
			t.Fatal("close blocks")
		}
		if w != nil {
			w.Close()
		}
		time.Sleep(time.Millisecond)
		if disc != 1 || off != 2 || len(m.closeCodes(t)) != 1 || !m.isClosed() || !vDone(c) {
			t.Fatalf("disconnect hook %d, deregistrations %d, close frames %d, transport closed %v", disc, off, len(m.closeCodes(t)), m.isClosed())
		}
		if mg.Get(1) != nil || len(rm.Get(1).GetAllConns()) != 0 || len(u.Limiter.clients) != 0 || len(u.Flusher.conns) != 0 {
			t.Fatal("still registered after the close")
		}
		u.Flusher.Close()
	}
	// a pooled buffer is not handed out while a writer uses it
	for it := 0; it < 20; it++ {
		u := NewUpgrader(vOpts(&Options{WriteBufferSize: 300}))
		c, _ := vDial(t, u)
		w, err := c.NextWriter(nil, 1)
		if err != nil {
			t.Fatal(err)
		}
		c.Close()
		w.Close()
		c2, _ := vDial(t, u)
		c3, _ := vDial(t, u)
		if &c2.writer.buf[0] == &c3.writer.buf[0] {
			t.Fatal("two connections share a write buffer")
		}
		c2.Close()
		c2.Close()
		c4, _ := vDial(t, u)
		c5, _ := vDial(t, u)
		if &c4.writer.buf[0] == &c5.writer.buf[0] || &c3.writer.buf[0] == &c5.writer.buf[0] || &c3.writer.buf[0] == &c4.writer.buf[0] {
			t.Fatal("two connections share a write buffer")
		}
	}
	// failing deadlines and writes
	for it := 0; it < 4; it++ {
		c, m := vNew(t, nil)
		m.mu.Lock()
		if it%2 == 0 {
			m.onDL = func() error { return errV }
		} else {
			m.onWrite = func([]byte) (int, error, bool) { return 0, errV, true }
		}
		m.mu.Unlock()
		if !vWithin(5*time.Second, c.Close) || !m.isClosed() || !vDone(c) {
			t.Fatal("the transport stays open")
		}
	}
}
func TestReplay_C13(t *testing.T) { rClose(t); rHooks(t) }

// ---------------------------------------------------------------- reading

type rOut struct {
	msgs   []vMsg
	pongs  []string
	code   int // of the close frame that answers, 0: none yet
	fatal  bool
	limits int
}

// the reference: what a reader of whole messages must see
func rRef(in []byte, maxSize, maxFrag int, skip bool) (o rOut) {
	end := func(code int) rOut { o.code, o.fatal = code, true; return o }
	var msg []byte
	op, open, frags := byte(0), false, 0
	for {
		need := func(n int) bool { return len(in) >= n }
		if !need(2) {
			return end(-1)
		}
		b0, b1 := in[0], in[1]
		o1 := b0 & 15
		n := int(b1 & 127)
		if b0&0x70 != 0 || !(o1 <= 2 || o1 >= 8 && o1 <= 10) || b1&128 == 0 || o1 >= 8 && (b0&128 == 0 || n > 125) {
			return end(1002)
		}
		h := 2
		switch n {
		case 126:
			if !need(4) {
				return end(-1)
			}
			n, h = int(binary.BigEndian.Uint16(in[2:])), 4
		case 127:
			if !need(10) {
				return end(-1)
			}
			if in[2]&128 != 0 {
				return end(-2)
			}
			n, h = int(binary.BigEndian.Uint64(in[2:])), 10
		}
		if o1 < 8 && maxSize >= 0 && n > maxSize {
			return end(-2) // which of the violations is reported first is not fixed
		}
		if o1 == 8 && n == 0 {
			return end(1000)
		} else if o1 == 8 && n == 1 {
			return end(1002)
		}
		if o1 < 8 && open && maxFrag > 0 && frags >= maxFrag {
			return end(-2)
		}
		if o1 < 8 && open != (o1 == 0) {
			return end(-2)
		}
		if !need(h+4) || n > len(in)-h-4 {
			if o1 < 8 && open && maxSize >= 0 && len(msg)+n > maxSize {
				return end(-2)
			}
			return end(-1)
		}
		key := in[h : h+4]
		p := make([]byte, n)
		for i := range p {
			p[i] = in[h+4+i] ^ key[i%4]
		}
		in = in[h+4+n:]
		switch {
		case o1 == 8:
			code := int(binary.BigEndian.Uint16(p))
			if !rValid(code) || !utf8.Valid(p[2:]) {
				return end(1002)
			}
			return end(code)
		case o1 == 9:
			o.pongs = append(o.pongs, string(p))
		case o1 == 10:
		default:
			if !open {
				msg, op, frags = nil, o1, 0
			}
			frags++
			if maxSize >= 0 && len(msg)+n > maxSize {
				return end(1009)
			}
			msg = append(msg, p...)
			open = b0&128 == 0
			if open && maxFrag > 0 && frags >= maxFrag {
				return end(1008)
			}
			if !open {
				if op == 1 && !skip && !utf8.Valid(msg) {
					return end(1007)
				}
				o.msgs = append(o.msgs, vMsg{op, string(msg), true})
			}
		}
	}
}

func rStream(rnd *rand.Rand) []byte {
	var in []byte
	add := func(b0 byte, p string) {
		f := vRaw(b0, true, p)
		h := len(f) - len(p) - 4
		k := [4]byte{byte(rnd.Intn(256)), byte(rnd.Intn(256)), byte(rnd.Intn(256)), byte(rnd.Intn(256))}
		copy(f[h:], k[:])
		for i := 0; i < len(p); i++ {
			f[h+4+i] = p[i] ^ k[i%4]
		}
		in = append(in, f...)
	}
	str := func(n int) string {
		if n > 0 && rnd.Intn(12) == 0 {
			return string(vPattern(n))
		}
		s := strings.Repeat("aé€", n/6) + strings.Repeat("z", n%6)
		return s
	}
	sizes := []int{0, 0, 1, 3, 5, 125, 126, 127, 128, 200, 1000, 4096, 5000, 65535, 65536}
	size := func() int {
		if rnd.Intn(3) > 0 {
			return rnd.Intn(20)
		}
		return sizes[rnd.Intn(len(sizes))]
	}
	ctl := func() {
		for rnd.Intn(4) == 0 {
			n := []int{0, 1, 5, 124, 125}[rnd.Intn(5)]
			add(0x89+byte(rnd.Intn(2)), str(n))
		}
	}
	for k := 1 + rnd.Intn(5); k > 0; k-- {
		ctl()
		op := byte(1 + rnd.Intn(2))
		for rnd.Intn(3) == 0 {
			add(op, str(size()))
			op = 0
			ctl()
		}
		add(0x80|op, str(size()))
	}
	switch rnd.Intn(6) {
	case 0:
		add(byte(rnd.Intn(256)), str([]int{0, 1, 3, 126}[rnd.Intn(4)]))
	case 1:
		add(0x88, "")
	case 2:
		add(0x88, "x")
	case 3, 4:
		code := []int{0, 999, 1000, 1001, 1002, 1003, 1004, 1005, 1006, 1007, 1008, 1009, 1010, 1011, 1012, 1013, 1014, 1015, 2999, 3000, 4999, 5000, 65535}[rnd.Intn(23)]
		reason := []string{"", "bye", strings.Repeat("é", 61), "\xff", strings.Repeat("r", 122) + "\xff", strings.Repeat("r", 123)}[rnd.Intn(6)]
		add(0x88, string([]byte{byte(code >> 8), byte(code)})+reason)
	}
	if rnd.Intn(12) == 0 {
		i := rnd.Intn(min(len(in), 12))
		in[i] ^= 1 << rnd.Intn(8)
	}
	if rnd.Intn(10) == 0 {
		in = in[:len(in)-rnd.Intn(min(len(in), 30))]
	}
	return in
}

func rRead(t *testing.T) { rReadN(t, 1500) }
func rReadN(t *testing.T, n int) {
	for it := 0; it < n; it++ {
		rnd := rand.New(rand.NewSource(int64(it)))
		in := rStream(rnd)
		maxSize := []int{-1, 1 << 20, 10, 100, 130}[rnd.Intn(5)]
		maxFrag := []int{0, 0, 1, 2, 3}[rnd.Intn(5)]
		skip := rnd.Intn(4) == 0
		want := rRef(in, maxSize, maxFrag, skip)
		o := &Options{MaxMessageSize: maxSize, ReaderMaxFragments: maxFrag, SkipUTF8Validation: skip, ReadBufferSize: []int{0, 0, 16, 200, 4096}[rnd.Intn(5)]}
		c, m := vNew(t, o)
		m.mu.Lock()
		m.in, m.block = append([]byte(nil), in...), false
		m.chunk = []int{0, 0, 1, 7, 100}[rnd.Intn(5)]
		if rnd.Intn(3) == 0 {
			m.rerr = errV
		}
		m.mu.Unlock()
		mode := rnd.Intn(3)
		buf := 1 + rnd.Intn(40)
		if rnd.Intn(3) == 0 {
			buf = 20000
		}
		var got rOut
		var last error
		at := fmt.Sprintf("it %d (mode %d, size limit %d, fragment limit %d)", it, mode, maxSize, maxFrag)
		if !vWithin(20*time.Second, func() {
			for {
				var op byte
				var data []byte
				var err error
				if mode == 0 {
					op, data, err = c.ReadMessage()
				} else {
					var r io.Reader
					r, op, err = c.NextReader()
					if err == nil {
						b := make([]byte, buf)
						for err == nil {
							var k int
							k, err = r.Read(b)
							data = append(data, b[:k]...)
						}
						if err == io.EOF {
							err = nil
						} else if i := len(got.msgs); i < len(want.msgs) {
							t.Errorf("%s: message %d is not delivered: %v", at, i, err)
						}
						if err == nil && op == 1 && !skip && !utf8.Valid(data) {
							last = errors.New("text")
							return
						}
					}
				}
				if err != nil {
					last = err
					return
				}
				got.msgs = append(got.msgs, vMsg{op, string(data), true})
				if len(got.msgs) > len(want.msgs) {
					return
				}
			}
		}) {
			t.Fatal(at, "the read blocks")
		}
		if !reflect.DeepEqual(got.msgs, want.msgs) {
			t.Fatalf("%s: %d messages read, %d sent, or altered; %v\n% x", at, len(got.msgs), len(want.msgs), last, in[:min(len(in), 200)])
		}
		if last != nil && last.Error() == "text" {
			continue
		}
		if !IsFatalErr(last) || !vDone(c) || !m.isClosed() {
			t.Fatalf("%s: ends with %v, closed %v", at, last, vDone(c))
		}
		var pongs []string
		code := 0
		fs := m.frames(t)
		for _, f := range fs {
			if f.op == 10 {
				pongs = append(pongs, f.payload)
			} else if f.op == 8 {
				code = int(binary.BigEndian.Uint16([]byte(f.payload)))
			} else {
				t.Fatalf("%s: frame of type %d sent", at, f.op)
			}
		}
		if len(fs) == 0 || fs[len(fs)-1].op != 8 {
			t.Fatal(at, "no close frame at the end")
		}
		if !reflect.DeepEqual(pongs, want.pongs) {
			t.Fatalf("%s: pongs %q, want %q", at, pongs, want.pongs)
		}
		if want.code > 0 && code != want.code {
			t.Fatalf("%s: closed with %d, want %d\n% x", at, code, want.code, in[:min(len(in), 300)])
		}
	}
}

// messages that are not read to their end
func rPartly(t *testing.T) {
	for it := 0; it < 300; it++ {
		rnd := rand.New(rand.NewSource(int64(it)))
		var in [][]byte
		type w struct {
			op   byte
			data string
		}
		var want []w
		for k := 0; k < 8; k++ {
			op := byte(1 + rnd.Intn(2))
			x := w{op: op}
			for f := rnd.Intn(4); f >= 0; f-- {
				p := strings.Repeat(string(rune('a'+k)), rnd.Intn(3)*rnd.Intn(3000))
				if rnd.Intn(8) == 0 {
					p = "\"s\""
				}
				x.data += p
				in = append(in, vF(f == 0, op, p))
				op = 0
				if f > 0 && rnd.Intn(5) == 0 {
					in = append(in, vF(true, 9, "ping"))
				}
			}
			want = append(want, x)
		}
		c, m := vNew(t, &Options{MaxMessageSize: -1}, in...)
		m.chunk = []int{0, 1, 50}[it%3]
		for k, x := range want {
			var err error
			var b []byte
			if !vWithin(10*time.Second, func() {
				switch rnd.Intn(5) {
				case 0:
					b, err = c.ReadString()
					if x.op != 1 {
						if err != ErrMessageTypeMismatch {
							t.Errorf("it %d message %d: %v", it, k, err)
						}
						return
					}
				case 1:
					b, err = c.ReadBinary()
					if x.op != 2 {
						if err != ErrMessageTypeMismatch {
							t.Errorf("it %d message %d: %v", it, k, err)
						}
						return
					}
				case 2:
					var v any
					err = c.ReadJSON(&v)
					if IsFatalErr(err) || x.op == 1 && (json.Unmarshal([]byte(x.data), &v) == nil) && err != nil || x.op != 1 && err != ErrMessageTypeMismatch {
						t.Errorf("it %d message %d: json %v", it, k, err)
					}
					return
				case 3:
					r, op, e := c.NextReader()
					if e != nil || op != x.op {
						t.Errorf("it %d message %d: type %d, %v", it, k, op, e)
						return
					}
					b = make([]byte, rnd.Intn(2000))
					n, _ := r.Read(b)
					if !strings.HasPrefix(x.data, string(b[:n])) {
						t.Errorf("it %d message %d: wrong bytes", it, k)
					}
					return
				default:
					var op byte
					op, b, err = c.ReadMessage()
					if op != x.op {
						t.Errorf("it %d message %d: type %d, %v", it, k, op, err)
					}
				}
				if err != nil || string(b) != x.data {
					t.Errorf("it %d message %d: %v, %d bytes of %d", it, k, err, len(b), len(x.data))
				}
			}) {
				t.Fatal("the read blocks")
			}
			if t.Failed() {
				return
			}
		}
	}
}

// every kind of header
func rHeaders(t *testing.T) {
	for b0 := 0; b0 < 256; b0++ {
		for _, b1 := range []int{0, 1, 2, 3, 125, 126, 127, 128, 129, 130, 131, 253, 254, 255} {
			for pre := 0; pre < 2; pre++ {
				var in []byte
				if pre == 1 {
					in = vF(false, 1, "ab")
				}
				n := b1 & 127
				in = append(in, byte(b0), byte(b1))
				if n == 126 {
					n = 300
					in = append(in, 1, 44)
				} else if n == 127 {
					n = 70000
					in = append(in, 0, 0, 0, 0, 0, 1, 17, 112)
				}
				if b1&128 != 0 {
					in = append(in, 0, 0, 0, 0)
				}
				in = append(in, strings.Repeat("k", n)...)
				if b0&15 == 8 && n >= 2 {
					in[len(in)-n], in[len(in)-n+1] = 3, 0xe8
				}
				want := rRef(in, -1, 0, true)
				c, m := vNew(t, &Options{MaxMessageSize: -1, SkipUTF8Validation: true})
				m.mu.Lock()
				m.in, m.block = in, false
				m.mu.Unlock()
				var got []vMsg
				for {
					op, d, err := c.ReadMessage()
					if err != nil {
						if !IsFatalErr(err) || !vDone(c) {
							t.Fatalf("header %x %x: %v, closed %v", b0, b1, err, vDone(c))
						}
						break
					}
					got = append(got, vMsg{op, string(d), true})
				}
				cs := m.closeCodes(t)
				if !reflect.DeepEqual(got, want.msgs) || len(cs) != 1 || want.code > 0 && cs[0] != want.code || want.code == -2 && pre == 1 && cs[0] != 1002 {
					t.Fatalf("header %x %x (in a message: %d): %d messages, %d expected, closed with %d, expected %d", b0, b1, pre, len(got), len(want.msgs), cs, want.code)
				}
			}
		}
	}
	for i := 0; i < 64; i++ {
		in := []byte{0x82, 0xff}
		in = binary.BigEndian.AppendUint64(in, 1<<i|3)
		in = append(in, 0, 0, 0, 0, 'a', 'b', 'c')
		c, m := vNew(t, &Options{MaxMessageSize: -1})
		m.mu.Lock()
		m.in, m.block = in, false
		m.mu.Unlock()
		r, _, err := c.NextReader()
		if err == nil {
			b := make([]byte, 100)
			n, _ := r.Read(b)
			if _, err = r.Read(b[n:]); i > 1 && (err == nil || err == io.EOF) {
				t.Fatalf("length with bit %d: complete after 3 bytes", i)
			}
		} else if i < 62 && !IsFatalErr(err) {
			t.Fatal(i, err)
		}
	}
}
func rMask(t *testing.T) {
	for n := 0; n < 600; n++ {
		for pos := 0; pos < 9; pos++ {
			b := vPattern(n + 20)
			w := append([]byte(nil), b...)
			k := []byte{1, 0x80, 0x3c, 0xff}
			p := mask(b[7:7+n], k, pos)
			for i := 0; i < n; i++ {
				w[7+i] ^= k[(pos+i)%4]
			}
			if string(w) != string(b) || (p-pos-n)%4 != 0 {
				t.Fatalf("%d bytes from position %d: next position %d", n, pos, p)
			}
		}
	}
}
func rPing(t *testing.T) {
	c, m := vNew(t, nil)
	for i := 0; i < 3; i++ {
		if err := c.Ping(); err != nil {
			t.Fatal(err)
		}
		for _, p := range []string{"x", "not yours"} {
			m.feed(vF(true, 10, p), vF(true, 1, "y"))
			if _, err := c.ReadString(); err != nil {
				t.Fatal(err)
			}
			if err := c.Ping(); err != ErrPingAlreadySent {
				t.Fatal("ping while one is outstanding:", err)
			}
		}
		m.feed(vF(true, 10, ""), vF(true, 1, "y"))
		if _, err := c.ReadString(); err != nil {
			t.Fatal(err)
		}
	}
	if fs := m.frames(t); len(fs) != 3 {
		t.Fatal(fs)
	}
	// a pong that cannot be written
	for i := 0; i < 2; i++ {
		c, m := vNew(t, nil)
		m.mu.Lock()
		if i == 0 {
			m.onWrite = func([]byte) (int, error, bool) { return 0, errV, true }
		} else {
			m.onDL = func() error { return errV }
		}
		m.mu.Unlock()
		m.feed(vF(true, 9, "p"), vF(true, 1, "y"))
		if _, err := c.ReadString(); !IsFatalErr(err) || !vDone(c) {
			t.Fatal(err)
		}
		c, m = vNew(t, nil)
		m.mu.Lock()
		m.onWrite = func([]byte) (int, error, bool) { return 0, errV, true }
		m.mu.Unlock()
		if err := c.Ping(); !IsFatalErr(err) || !vDone(c) {
			t.Fatal(err)
		}
	}
}
func TestReplay_C06(t *testing.T) { rHeaders(t); rRead(t) }
func TestReplay_C07(t *testing.T) { rMask(t); rRead(t); rEOFData(t) }
func TestReplay_C08(t *testing.T) { rPartly(t); rRead(t); rLimiter(t) }
func TestReplay_C09(t *testing.T) { rRead(t); rSizes(t) }
func TestReplay_C10(t *testing.T) { rRead(t); rPartly(t); rText(t) }
func TestReplay_C11(t *testing.T) { rRead(t); rPing(t) }
func TestReplay_C12(t *testing.T) { rRead(t); rHeaders(t); rClose(t); rCloseFrames(t) }
func TestReplay_C14(t *testing.T) { rSend(t); rRead(t); rPing(t); rHeaders(t); rPartly(t); rCuts(t); rBroadcast(t) }

func rCuts(t *testing.T) {
	for _, full := range [][]byte{vF(true, 1, string(vPattern(300))), vF(true, 2, string(vPattern(70000))), vF(true, 9, "ping"), vF(true, 10, "pong"), vF(true, 8, "\x03\xe8x")} {
		for cut := 0; cut < min(len(full), 30); cut++ {
			for k := 0; k < 3; k++ {
				c, m := vNew(t, &Options{SkipUTF8Validation: true})
				if k == 2 {
					c.Ping()
				}
				m.mu.Lock()
				m.in, m.block = full[:cut], false
				if k == 1 {
					m.rerr = errV
				}
				m.mu.Unlock()
				_, _, err := c.ReadMessage()
				if !IsFatalErr(err) || !vDone(c) {
					t.Fatalf("transport ends after %d bytes of a frame: %v, closed %v", cut, err, vDone(c))
				}
			}
		}
	}
	// contexts
	c, _ := vNew(t, nil)
	w, err := c.NextWriter(nil, 1)
	if err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	for _, f := range []func() error{
		func() error { return c.SendBytes(ctx, nil) },
		func() error { return c.SendBytes(ctx, []byte("x")) },
		func() error { return c.SendString(ctx, nil) },
		func() error { return c.SendString(ctx, []byte("x")) },
		func() error { return c.SendJSON(ctx, 1) },
		func() error { return c.SendMessage(ctx, 1, nil) },
		func() error { _, err := c.NextWriter(ctx, 2); return err },
	} {
		if err := f(); err == nil || IsFatalErr(err) && !vDone(c) {
			t.Fatal("fatal, but open:", err)
		}
	}
	w.Close()
}
func rEOFData(t *testing.T) {
	p := vPattern(9000)
	b := vF(true, 2, string(p))
	for cut := 1; cut < 900; cut += 100 {
		c, m := vNew(t, nil, b[:8])
		r, _, err := c.NextReader()
		if err != nil {
			t.Fatal(err)
		}
		m.mu.Lock()
		m.in = append(m.in, b[8:len(b)-cut]...)
		m.rerr = errV
		m.mu.Unlock()
		var out []byte
		buf := make([]byte, 20000)
		for err == nil {
			var k int
			k, err = r.Read(buf)
			out = append(out, buf[:k]...)
		}
		if err == io.EOF || string(out) != string(p[:len(out)]) {
			t.Fatal("altered", len(out), err)
		}
	}
}
func rSizes(t *testing.T) {
	for limit := 0; limit < 8; limit++ {
		for a := 0; a < 10; a++ {
			for b := 0; b < 10; b++ {
				if limit == 0 {
					continue
				}
				c, m := vNew(t, &Options{MaxMessageSize: limit}, vF(false, 2, strings.Repeat("a", a)), vF(false, 0, ""), vF(true, 0, strings.Repeat("b", b)), vF(true, 1, "x"))
				_, d, err := c.ReadMessage()
				if a+b <= limit != (err == nil) || err == nil && len(d) != a+b {
					t.Fatalf("limit %d, %d+%d bytes: %v", limit, a, b, err)
				}
				if cs := m.closeCodes(t); err != nil && (len(cs) != 1 || cs[0] != 1009) {
					t.Fatal(cs)
				}
			}
		}
	}
	for limit := 1; limit < 6; limit++ {
		for n := 1; n < 9; n++ {
			for _, p := range []string{"", "a"} {
				for mode := 0; mode < 2; mode++ {
					var in [][]byte
					for i := 0; i < n; i++ {
						op := byte(0)
						if i == 0 {
							op = 2
						}
						in = append(in, vF(i == n-1, op, p), vF(true, 9, "x"))
					}
					c, m := vNew(t, &Options{ReaderMaxFragments: limit}, append(in, vF(true, 1, "next"))...)
					var err error
					if mode == 0 {
						_, _, err = c.ReadMessage()
					} else if _, _, err = c.NextReader(); err == nil {
						_, err = c.ReadString()
					}
					if n <= limit != (err == nil) {
						t.Fatalf("limit %d, %d fragments: %v", limit, n, err)
					}
					if cs := m.closeCodes(t); err != nil && (len(cs) != 1 || cs[0] != 1008) {
						t.Fatal(cs)
					}
				}
			}
		}
	}
	c, _ := vNew(t, &Options{MaxMessageSize: -1}, vF(false, 2, string(vPattern(1<<20))), vF(true, 0, string(vPattern(1<<20))))
	if _, d, err := c.ReadMessage(); err != nil || len(d) != 2<<20 {
		t.Fatal("no limit:", err)
	}
}
func rText(t *testing.T) {
	bad := []string{"\xff", "\xe2\x82", "\xf0\x9f\x98", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\x80"}
	for _, n := range []int{0, 1, 3, 500, 511, 512, 513, 4095, 4096, 4097, 70000} {
		for _, x := range bad {
			for k := 0; k < 3; k++ {
				s := strings.Repeat("a", n) + x
				if k == 1 {
					s += "b"
				}
				in := [][]byte{vF(true, 1, s), vF(true, 1, "ok")}
				if k == 2 {
					in = [][]byte{vF(false, 1, s[:n]), vF(true, 0, s[n:]), vF(true, 1, "ok")}
				}
				c, m := vNew(t, nil, in...)
				if _, err := c.ReadString(); !IsFatalErr(err) {
					t.Fatalf("%d bytes and %q: %v", n, x, err)
				}
				if cs := m.closeCodes(t); len(cs) != 1 || cs[0] != 1007 {
					t.Fatal(cs)
				}
				c, _ = vNew(t, &Options{SkipUTF8Validation: true}, in...)
				if b, err := c.ReadString(); err != nil || string(b) != s {
					t.Fatal("validation off:", err)
				}
				c, _ = vNew(t, nil, vF(true, 2, s), vF(true, 2, s), vF(true, 1, "x"), vF(true, 1, "y"))
				if _, err := c.ReadString(); err != ErrMessageTypeMismatch {
					t.Fatal(err)
				}
				if b, err := c.ReadBinary(); err != nil || string(b) != s {
					t.Fatal(err)
				}
				if _, err := c.ReadBinary(); err != ErrMessageTypeMismatch {
					t.Fatal(err)
				}
				if b, err := c.ReadString(); err != nil || string(b) != "y" {
					t.Fatal(err)
				}
			}
		}
	}
}
func rCloseFrames(t *testing.T) {
	for code := 0; code < 65536; code++ {
		if code > 5100 && code%977 != 0 && code != 65535 || code < 900 && code%97 != 0 || code > 1100 && code < 2900 && code%97 != 0 || code > 3100 && code < 4900 && code%97 != 0 {
			continue
		}
		for _, r := range []string{"", "a", "\xff", strings.Repeat("r", 123), strings.Repeat("r", 122) + "\xff", "\xff" + strings.Repeat("r", 122)} {
			c, m := vNew(t, nil, vF(true, 8, string([]byte{byte(code >> 8), byte(code)})+r))
			c.ReadMessage()
			want := 1002
			if rValid(code) && utf8.ValidString(r) {
				want = code
			}
			if cs := m.closeCodes(t); len(cs) != 1 || cs[0] != want {
				t.Fatalf("close frame with %d and %q answered with %d", code, r, cs)
			}
		}
	}
}

// ---------------------------------------------------------------- rate limit

func rLimiter(t *testing.T) {
	for it := 0; it < 60; it++ {
		rnd := rand.New(rand.NewSource(int64(it)))
		burst := rnd.Intn(4)
		u := NewUpgrader(vOpts(nil))
		u.Limiter = NewRateLimiter([]int{0, 0}[it%2], burst)
		hits := 0
		herr := errors.New("limit")
		fail := it%5 == 4
		u.Limiter.OnRateLimitHit = func(c *Conn) error {
			hits++
			if fail {
				return herr
			}
			return nil
		}
		if it%7 == 0 {
			u.Limiter.OnRateLimitHit = nil
		}
		var in [][]byte
		var want []string
		for k := 0; k < 7; k++ {
			s := ""
			op := byte(1)
			for f := rnd.Intn(3); f >= 0; f-- {
				p := strings.Repeat(string(rune('a'+k)), rnd.Intn(3)*50)
				if rnd.Intn(3) == 0 {
					in = append(in, vF(true, 9, "p"))
				}
				in = append(in, vF(f == 0, op, p))
				op = 0
				s += p
			}
			want = append(want, s)
		}
		c, m := vDial(t, u, in...)
		for k, w := range want {
			var b []byte
			var err error
			if !vWithin(5*time.Second, func() { b, err = c.ReadString() }) {
				t.Fatal("blocks")
			}
			if k < burst {
				if err != nil || string(b) != w {
					t.Fatalf("it %d message %d: %v", it, k, err)
				}
				continue
			}
			if err == nil || len(b) != 0 {
				t.Fatalf("it %d message %d over the limit: delivered %q", it, k, b)
			}
			if fail && u.Limiter.OnRateLimitHit != nil {
				if !IsFatalErr(err) || !vDone(c) || hits != 1 {
					t.Fatal(err, hits)
				}
				break
			}
			if IsFatalErr(err) || vDone(c) || u.Limiter.OnRateLimitHit != nil && hits != k-burst+1 {
				t.Fatal(err, hits)
			}
		}
		c2, _ := vDial(t, u, vF(true, 1, "z"))
		if _, err := c2.ReadString(); burst > 0 && err != nil {
			t.Fatal("the bucket is shared:", err)
		}
		c.Close()
		c2.Close()
		u.Limiter.mu.Lock()
		n := len(u.Limiter.clients)
		u.Limiter.mu.Unlock()
		if n != 0 {
			t.Fatal("left in the limiter")
		}
		_ = m
	}
	// the bucket is the configured one
	u := NewUpgrader(vOpts(nil))
	u.Limiter = NewRateLimiter(1000, 3)
	c, _ := vDial(t, u)
	l := u.Limiter.getLimiter(c)
	if l == nil || l.Burst() != 3 || l.Limit() != 1000 {
		t.Fatal("wrong bucket")
	}
}
func TestReplay_C23(t *testing.T) { rLimiter(t) }

// ---------------------------------------------------------------- registries

var rMu sync.Mutex

func rLog(log *[]string, s string) {
	rMu.Lock()
	defer rMu.Unlock()
	*log = append(*log, s)
}

func rManager(t *testing.T) {
	for it := 0; it < 150; it++ {
		rnd := rand.New(rand.NewSource(int64(it)))
		u := NewUpgrader(vOpts(nil))
		ms := []*Manager[int]{NewManager[int](u), NewManager[int](u)}
		var log []string
		model := []map[int]*ManagedConn[int]{{}, {}}
		want := []string{}
		ids := map[*Conn]int{}
		name := func(c *ManagedConn[int]) string { return fmt.Sprint(ids[c.Conn]) }
		for i, m := range ms {
			if it%5 != 4 {
				m.OnRegister = func(c *ManagedConn[int]) { rLog(&log, fmt.Sprint(i, "+", name(c))) }
				m.OnUnregister = func(c *ManagedConn[int]) { rLog(&log, fmt.Sprint(i, "-", name(c))) }
			}
		}
		var conns []*ManagedConn[int]
		closed := map[*ManagedConn[int]]bool{}
		w := func(i int, op string, c *ManagedConn[int]) {
			if it%5 != 4 {
				want = append(want, fmt.Sprint(i, op, name(c)))
			}
		}
		shut := func(c *ManagedConn[int]) {
			closed[c] = true
			for i := range ms {
				for k, x := range model[i] {
					if x == c {
						delete(model[i], k)
						w(i, "-", c)
					}
				}
			}
		}
		for k := 0; k < 14; k++ {
			i := rnd.Intn(2)
			m := ms[i]
			if !vWithin(5*time.Second, func() {
				switch rnd.Intn(6) {
				case 0, 1, 2:
					key := rnd.Intn(3)
					var c *ManagedConn[int]
					if len(conns) > 0 && rnd.Intn(4) == 0 {
						c = conns[rnd.Intn(len(conns))]
						key = c.Key
						i = 0
						for j := range ms {
							if c.Manager == ms[j] {
								i = j
							}
						}
						m = ms[i]
					} else {
						raw, _ := vDial(t, u)
						ids[raw] = len(ids)
						c = m.newManagedConn(raw, key)
						conns = append(conns, c)
					}
					old := model[i][key]
					m.Register(key, c)
					if old != nil && old != c {
						w(i, "-", old)
					}
					w(i, "+", c)
					model[i][key] = c
					if closed[c] {
						delete(model[i], key)
						w(i, "-", c)
					}
				case 3:
					if len(conns) > 0 {
						c := conns[rnd.Intn(len(conns))]
						c.Close()
						if !closed[c] {
							shut(c)
						}
					}
				case 4:
					for key := 0; key < 3; key++ {
						if m.Get(key) != model[i][key] {
							t.Errorf("it %d: key %d is mapped to another connection", it, key)
						}
					}
					ex := []int{rnd.Intn(3)}
					got := map[*ManagedConn[int]]bool{}
					for _, c := range m.GetAllConns(ex...) {
						if got[c] {
							t.Error("twice")
						}
						got[c] = true
					}
					n := 0
					for key, c := range model[i] {
						if key != ex[0] {
							n++
							if !got[c] {
								t.Errorf("it %d: connection missing", it)
							}
						}
					}
					if n != len(got) || len(m.GetAllConnsAsConn(ex...)) != n {
						t.Errorf("it %d: %d connections listed, want %d", it, len(got), n)
					}
				case 5:
					if rnd.Intn(3) == 0 {
						m.Shutdown()
						var cs []*ManagedConn[int]
						for _, c := range model[i] {
							cs = append(cs, c)
						}
						for _, c := range cs {
							if !vDone(c.Conn) {
								t.Errorf("it %d: open after the shutdown", it)
							}
							shut(c)
						}
					}
				}
			}) {
				t.Fatal("an operation of the manager blocks")
			}
			for _, c := range conns {
				for i := range ms {
					_ = i
				}
				if vDone(c.Conn) && !closed[c] {
					t.Fatalf("it %d: closed for no reason", it)
				}
			}
		}
		sort.Strings(log)
		sort.Strings(want)
		if strings.Join(log, " ") != strings.Join(want, " ") {
			t.Fatalf("it %d: hooks %v, want %v", it, log, want)
		}
		if t.Failed() {
			return
		}
		for _, c := range conns {
			c.Close()
		}
	}
	// a replaced connection is closed and does not take the new one with it
	u := NewUpgrader(vOpts(nil))
	m := NewManager[string](u)
	a, ra := vDial(t, u)
	b, _ := vDial(t, u)
	ma, mb := m.newManagedConn(a, "k"), m.newManagedConn(b, "k")
	m.Register("k", ma)
	m.Register("k", mb)
	if !ra.isClosed() {
		t.Fatal("the replaced connection stays open")
	}
	a.Close()
	if m.Get("k") != mb {
		t.Fatal("the new connection is lost")
	}
}
func TestReplay_C18(t *testing.T) { rExclude(t); rManager(t); rBroadcast(t); rRace(t) }

func rExclude(t *testing.T) {
	u := NewUpgrader(vOpts(nil))
	m := NewManager[int](u)
	r := NewRoomManager[int](u).Add(1)
	var cs []*Conn
	for i := 0; i < 5; i++ {
		c, _ := vDial(t, u)
		cs = append(cs, c)
		r.Add(c)
		m.Register(i, m.newManagedConn(c, i))
	}
	for set := 0; set < 32; set++ {
		var ex []int
		var exc []*Conn
		for i := 0; i < 5; i++ {
			if set>>i&1 == 1 {
				ex = append(ex, i)
				exc = append(exc, cs[i])
			}
		}
		got := map[*Conn]int{}
		for _, c := range m.GetAllConns(ex...) {
			got[c.Conn]++
		}
		for _, c := range m.GetAllConnsAsConn(ex...) {
			got[c] += 10
		}
		for _, c := range r.GetAllConns(exc...) {
			got[c] += 100
		}
		for i, c := range cs {
			if want := 111 * (1 - set>>i&1); got[c] != want {
				t.Fatalf("excluded %v: connection %d is listed %d", ex, i, got[c])
			}
		}
	}
	for k := 0; k < 3000; k++ {
		rm := r.rm
		var rs [4]*Room[int]
		var wg sync.WaitGroup
		start := make(chan int)
		for i := range rs {
			wg.Add(1)
			go func() { defer wg.Done(); <-start; rs[i] = rm.Add(k + 10) }()
		}
		close(start)
		wg.Wait()
		for _, x := range rs {
			if x != rm.Get(k + 10) {
				t.Fatal("a room that is not the registered one")
			}
		}
	}
	for _, c := range cs {
		c.Close()
	}
}
func rRooms(t *testing.T) {
	for it := 0; it < 150; it++ {
		rnd := rand.New(rand.NewSource(int64(it)))
		u := NewUpgrader(vOpts(nil))
		rm := NewRoomManager[int](u)
		var log, want []string
		ids := map[*Conn]int{}
		hooks := it % 4 // 0: both, 1: only join, 2: only leave, 3: none
		if hooks < 2 {
			rm.DefaultOnJoin = func(r *Room[int], c *Conn, args ...any) { rLog(&log, fmt.Sprint(r.Key, "+", ids[c])) }
		}
		if hooks%2 == 0 {
			rm.DefaultOnLeave = func(r *Room[int], c *Conn, args ...any) { rLog(&log, fmt.Sprint(r.Key, "-", ids[c])) }
		}
		rooms := map[int]*Room[int]{}
		in := map[int]map[*Conn]bool{}
		for k := 0; k < 3; k++ {
			rooms[k] = rm.Add(k)
			in[k] = map[*Conn]bool{}
		}
		if rm.Add(1) != rooms[1] || rm.Get(2) != rooms[2] || len(rm.GetRoomKeys()) != 3 {
			t.Fatal("rooms")
		}
		var conns []*Conn
		closed := map[*Conn]bool{}
		for i := 0; i < 4; i++ {
			c, _ := vDial(t, u)
			ids[c] = i
			conns = append(conns, c)
		}
		join := func(k int, c *Conn) {
			if in[k][c] {
				return
			}
			if hooks < 2 {
				want = append(want, fmt.Sprint(k, "+", ids[c]))
			}
			in[k][c] = true
			if closed[c] {
				delete(in[k], c)
				if hooks%2 == 0 {
					want = append(want, fmt.Sprint(k, "-", ids[c]))
				}
			}
		}
		leave := func(k int, c *Conn) {
			if !in[k][c] {
				return
			}
			delete(in[k], c)
			if hooks%2 == 0 {
				want = append(want, fmt.Sprint(k, "-", ids[c]))
			}
		}
		for s := 0; s < 25; s++ {
			k, c := rnd.Intn(3), conns[rnd.Intn(4)]
			if !vWithin(5*time.Second, func() {
				switch rnd.Intn(7) {
				case 0, 1, 2:
					rooms[k].Add(c)
					join(k, c)
				case 3:
					rooms[k].Remove(c)
					leave(k, c)
				case 4:
					k2 := rnd.Intn(4)
					rooms[k].Move(c, k2)
					leave(k, c)
					if k2 < 3 {
						join(k2, c)
					}
				case 5:
					if rnd.Intn(3) == 0 {
						rooms[k].RemoveAll()
						for _, c := range conns {
							leave(k, c)
						}
					}
				case 6:
					if rnd.Intn(3) == 0 {
						c.Close()
						closed[c] = true
						for k := range rooms {
							leave(k, c)
						}
					}
				}
			}) {
				t.Fatal("an operation of a room blocks")
			}
			for k, r := range rooms {
				got := r.GetAllConns()
				if len(got) != len(in[k]) {
					t.Fatalf("it %d: room %d has %d members, want %d", it, k, len(got), len(in[k]))
				}
				for _, c := range got {
					if !in[k][c] {
						t.Fatalf("it %d: wrong member", it)
					}
				}
				if len(got) > 0 && len(r.GetAllConns(got[0])) != len(got)-1 {
					t.Fatal("exclude")
				}
			}
		}
		sort.Strings(log)
		sort.Strings(want)
		if strings.Join(log, " ") != strings.Join(want, " ") {
			t.Fatalf("it %d: hooks %v, want %v", it, log, want)
		}
		old := rooms[0]
		rooms[0].Close()
		if rm.Get(0) != nil || len(old.GetAllConns()) != 0 {
			t.Fatal("room still there")
		}
		again := rm.Add(0)
		old.Close()
		if rm.Get(0) != again {
			t.Fatal("closing a room twice removes another one")
		}
		var open []*Conn
		for k := 1; k < 3; k++ {
			open = append(open, rooms[k].GetAllConns()...)
		}
		if !vWithin(5*time.Second, rm.Shutdown) {
			t.Fatal("shutdown blocks")
		}
		for _, c := range open {
			if cs := c.raw.(*vT).closeCodes(t); !vDone(c) || len(cs) != 1 || cs[0] != 1001 {
				t.Fatal("shutdown leaves a connection open, or another code:", cs)
			}
		}
		if len(rm.GetRoomKeys()) != 0 {
			t.Fatal("rooms after the shutdown")
		}
		for k := 1; k < 3; k++ {
			if len(rooms[k].GetAllConns()) != 0 {
				t.Fatal("members after the shutdown")
			}
		}
		for _, c := range conns {
			c.Close()
		}
	}
}
func TestReplay_C19(t *testing.T) { rExclude(t); rRooms(t); rRace(t) }
// clients reconnect while the manager shuts down
func rShutReconnect(t *testing.T) {
	m := NewManager[int](NewUpgrader(vOpts(nil)))
	const n = 40
	var cs []*Conn
	var first atomic.Bool
	reconnected := make(chan struct{})
	for i := 0; i < n; i++ {
		c, x := vDial(t, m.Upgrader)
		m.Register(i, &ManagedConn[int]{Conn: c, Manager: m, Key: i})
		x.mu.Lock()
		x.onWrite = func([]byte) (int, error, bool) { // the first close is quick, the others are slow
			if first.Swap(true) {
				<-reconnected
			}
			return 0, nil, false
		}
		x.mu.Unlock()
		cs = append(cs, c)
	}
	var once atomic.Bool
	m.OnUnregister = func(*ManagedConn[int]) {
		if once.CompareAndSwap(false, true) {
			// clients reconnect under the keys of connections not closed yet
			for i := 0; i < n; i++ {
				if m.Get(i) == nil {
					continue
				}
				c, _ := vDial(t, m.Upgrader)
				m.Register(i, &ManagedConn[int]{Conn: c, Manager: m, Key: i})
			}
			close(reconnected)
		}
	}
	if !vWithin(5*time.Second, m.Shutdown) {
		t.Fatal("Shutdown did not return")
	}
	for i, c := range cs {
		if !vDone(c) {
			t.Fatalf("connection %d tracked by Shutdown is not closed", i)
		}
	}
}

func TestReplay_C27(t *testing.T) {
	rShutReconnect(t)
	rRooms(t)
	rManager(t)
	for n := 0; n < 40; n++ {
		u := NewUpgrader(vOpts(nil))
		m := NewManager[int](u)
		rm := NewRoomManager[int](u)
		m.OnUnregister = func(c *ManagedConn[int]) { m.GetAllConns() }
		rm.DefaultOnLeave = func(r *Room[int], c *Conn, a ...any) { rm.Get(1); r.GetAllConns(); rm.Add(77) }
		var cs []*Conn
		var us []*Conn
		for i := 0; i < n; i++ {
			c, _ := vDial(t, u)
			m.Register(i, m.newManagedConn(c, i))
			cs = append(cs, c)
			c, _ = vDial(t, u)
			rm.Add(i % 3).Add(c)
			if i%2 == 0 {
				c.Ping()
			}
			us = append(us, c)
		}
		if !vWithin(10*time.Second, m.Shutdown) || !vWithin(10*time.Second, rm.Shutdown) {
			t.Fatalf("shutdown of %d connections blocks", n)
		}
		if len(m.GetAllConns()) != 0 {
			t.Fatal("registered after the shutdown")
		}
		for _, c := range cs {
			if x := c.raw.(*vT).closeCodes(t); len(x) != 1 || x[0] != 1000 {
				t.Fatal("manager", x)
			}
		}
		for _, c := range us {
			if x := c.raw.(*vT).closeCodes(t); len(x) != 1 || x[0] != 1001 {
				t.Fatal("rooms", x)
			}
		}
	}
}

// ---------------------------------------------------------------- broadcasts

func rBroadcast(t *testing.T) {
	for _, n := range []int{0, 1, 125, 126, 65535, 65536, 70000} {
		for op := byte(1); op < 3; op++ {
			u := NewUpgrader(vOpts(&Options{WriteBufferSize: 64}))
			m := NewManager[int](u)
			var trs []*vT
			for i := 0; i < 4; i++ {
				c, tr := vDial(t, u)
				m.Register(i, m.newManagedConn(c, i))
				trs = append(trs, tr)
			}
			data := vPattern(n)
			f := m.BroadcastBytes
			if op == 1 {
				f = m.BroadcastString
			}
			k, err := f(nil, data, 2)
			if k != 3 || err != nil {
				t.Fatal("queues:", k, err)
			}
			data2 := append([]byte(nil), data...)
			for i := range data {
				_ = i
			}
			for i, tr := range trs {
				want := 1
				if i == 2 {
					want = 0
				}
				vWait(2*time.Second, func() bool { return len(tr.out()) >= want })
				time.Sleep(time.Millisecond)
				fs := tr.frames(t)
				if len(fs) != want || want == 1 && (fs[0].op != op || !fs[0].fin || fs[0].payload != string(data2)) {
					t.Fatalf("broadcast of %d bytes, connection %d: %d frames, or altered", n, i, len(fs))
				}
			}
		}
	}
	for _, op := range []byte{0, 3, 8, 9, 10} {
		u := NewUpgrader(vOpts(nil))
		m := NewManager[int](u)
		c, _ := vDial(t, u)
		m.Register(1, m.newManagedConn(c, 1))
		if n, err := m.broadcast(nil, op, nil); n != 0 || !errors.Is(err, ErrInvalidOPCODE) {
			t.Fatal(op, n, err)
		}
	}
	// full queues
	for _, pol := range []BackpressureStrategy{BackpressureDrop, BackpressureClose, BackpressureWait} {
		for batch := 0; batch < 2; batch++ {
			u := NewUpgrader(vOpts(&Options{BroadcastBackpressure: pol, BroadcastChannelsSize: 2, WriteWait: time.Minute}))
			u.EnablePrefixBatching(nil, time.Hour)
			m := NewManager[int](u)
			slow, st := vDial(t, u)
			quick, qt := vDial(t, u)
			hold := make(chan struct{})
			st.mu.Lock()
			st.onWrite = func(b []byte) (int, error, bool) { <-hold; return 0, nil, false }
			st.mu.Unlock()
			m.Register(1, m.newManagedConn(slow, 1))
			m.Register(2, m.newManagedConn(quick, 2))
			if _, err := m.BroadcastString(nil, []byte("first"), 2); err != nil {
				t.Fatal(err)
			}
			vWait(time.Second, func() bool { return len(slow.broadcastQueue) == 0 })
			time.Sleep(5 * time.Millisecond)
			for i := 0; i < 2; i++ {
				if n, err := m.BroadcastString(nil, []byte("fill"), 2); err != nil || n != 1 {
					t.Fatal(n, err)
				}
			}
			send := func(ctx context.Context) (int, error) {
				if batch == 1 {
					return m.BatchBroadcast(ctx, []byte("x"))
				}
				return m.BroadcastString(ctx, []byte("x"))
			}
			var n int
			var err error
			switch pol {
			case BackpressureDrop, BackpressureClose:
				if !vWithin(2*time.Second, func() { n, err = send(nil) }) || n != 1 || err != nil {
					t.Fatal("policy", pol, n, err)
				}
				time.Sleep(10 * time.Millisecond)
				if vDone(slow) != (pol == BackpressureClose) {
					t.Fatal("policy", pol, "closed:", vDone(slow))
				}
				close(hold)
			case BackpressureWait:
				ctx, cancel := context.WithTimeout(context.Background(), 30*time.Millisecond)
				if !vWithin(2*time.Second, func() { n, err = send(ctx) }) || err == nil {
					t.Fatal("a waiting broadcast outlives its context", n, err)
				}
				cancel()
				go func() { time.Sleep(30 * time.Millisecond); slow.raw.Close(); slow.CloseWithCode(1000, "") }()
				time.AfterFunc(300*time.Millisecond, func() { close(hold) })
				if !vWithin(4*time.Second, func() { n, err = send(nil) }) || err != nil || n > 2 {
					t.Fatal("a waiting broadcast outlives the connection", n, err)
				}
			}
			if batch == 0 {
				vWait(time.Second, func() bool { return len(qt.out()) > 0 })
				for _, f := range qt.frames(t) {
					if f.op == 1 && f.payload != "x" {
						t.Fatal(f)
					}
				}
			}
			u.Flusher.Close()
			slow.raw.Close()
		}
	}
	// a target that closes while the broadcast waits for it
	{
		u := NewUpgrader(vOpts(&Options{BroadcastBackpressure: BackpressureWait, BroadcastChannelsSize: 1}))
		u.EnablePrefixBatching(nil, time.Hour)
		for batch := 0; batch < 2; batch++ {
			c, tr := vDial(t, u)
			hold := make(chan int)
			tr.mu.Lock()
			tr.onWrite = func(b []byte) (int, error, bool) { <-hold; return 0, errV, true }
			tr.mu.Unlock()
			r := NewRoomManager[int](u).Add(1)
			r.Add(c)
			r.BroadcastString(nil, []byte("x"))
			vWait(time.Second, func() bool { return len(c.broadcastQueue) == 0 })
			time.Sleep(5 * time.Millisecond)
			r.BroadcastString(nil, []byte("x"))
			time.AfterFunc(50*time.Millisecond, func() { close(hold) })
			var n int
			if !vWithin(4*time.Second, func() {
				if batch == 1 {
					n, _ = r.BatchBroadcast(nil, []byte("x"))
				} else {
					n, _ = r.BroadcastString(nil, []byte("x"))
				}
			}) || n != 0 {
				t.Fatal("a target that closed is counted, or waited for", n)
			}
		}
	}
	// a failing one closes the connection, a busy one waits for the message
	u := NewUpgrader(vOpts(nil))
	m := NewManager[int](u)
	c, tr := vDial(t, u)
	m.Register(1, m.newManagedConn(c, 1))
	w, err := c.NextWriter(nil, 1)
	if err != nil {
		t.Fatal(err)
	}
	w.Write([]byte("a"))
	w.Flush()
	m.BroadcastString(nil, []byte("b"))
	time.Sleep(20 * time.Millisecond)
	w.Write([]byte("c"))
	w.Close()
	vWait(time.Second, func() bool { return len(tr.out()) == 3 })
	if ms := tr.messages(t); len(ms) != 2 || ms[0].data != "ac" || ms[1].data != "b" {
		t.Fatal(ms)
	}
	tr.mu.Lock()
	tr.onWrite = func([]byte) (int, error, bool) { return 0, errV, true }
	tr.mu.Unlock()
	m.BroadcastString(nil, []byte("b"))
	if !vWait(2*time.Second, func() bool { return vDone(c) }) {
		t.Fatal("open after a failed broadcast")
	}
}
func TestReplay_C20(t *testing.T) { rBroadcast(t); rManager(t) }

// ---------------------------------------------------------------- batching

func rBatch(t *testing.T) {
	for it := 0; it < 60; it++ {
		rnd := rand.New(rand.NewSource(int64(it)))
		limit := []int{1 << 20, 10, 30, 100}[rnd.Intn(4)]
		u := NewUpgrader(vOpts(&Options{MaxBatchSize: limit}))
		every := time.Hour
		if it%2 == 0 {
			every = time.Millisecond
		}
		js := it%3 == 0
		if js {
			u.EnableJSONBatching(nil, every)
		} else {
			u.EnablePrefixBatching(nil, every)
		}
		var p, s []byte
		if it%5 == 1 {
			p = []byte("\"pre\"")
		}
		if it%5 >= 1 && it%5 < 3 {
			s = []byte("\"suf\"")
		}
		var mu sync.Mutex
		var batches [][][]byte
		u.Flusher.BatchPrefixFunc = func(c *Conn, m [][]byte) []byte {
			mu.Lock()
			defer mu.Unlock()
			var x [][]byte
			for _, b := range m {
				x = append(x, append([]byte(nil), b...))
			}
			batches = append(batches, x)
			return p
		}
		u.Flusher.BatchSuffixFunc = func(c *Conn, m [][]byte) []byte { return s }
		if it%7 == 6 {
			u.Flusher.BatchSuffixFunc, s = nil, nil
		}
		c, tr := vDial(t, u)
		var want []string
		for k := 0; k < 30; k++ {
			msg := fmt.Sprintf("%d", k)
			msg = strings.Repeat("9", rnd.Intn(25)) + msg
			if it%3 == 0 && k > 0 && k%7 == 0 {
				msg = ""
			}
			if it%11 == 10 && k == 7 {
				msg = ""
			}
			want = append(want, msg)
			var err error
			if !vWithin(5*time.Second, func() { err = c.Batch([]byte(msg)) }) || err != nil {
				t.Fatal("batch", err)
			}
			if rnd.Intn(10) == 0 {
				time.Sleep(2 * time.Millisecond)
			}
		}
		u.Flusher.Close()
		count := func() int { mu.Lock(); defer mu.Unlock(); n := 0; for _, b := range batches { n += len(b) }; return n }
		vWait(2*time.Second, func() bool { mu.Lock(); nb := len(batches); mu.Unlock(); return count() >= len(want) && len(tr.messages(t)) >= nb })
		time.Sleep(2 * time.Millisecond)
		if err := c.Batch([]byte("1")); err != ErrFlusherClosed {
			t.Fatal("batch on a closed flusher:", err)
		}
		ms := tr.messages(t)
		mu.Lock()
		bs := batches
		mu.Unlock()
		if len(ms) != len(bs) {
			t.Fatalf("it %d: %d batches, %d messages sent", it, len(bs), len(ms))
		}
		var all []string
		for i, b := range bs {
			n := 0
			var parts [][]byte
			if p != nil {
				parts = append(parts, p)
			}
			for _, x := range b {
				n += len(x)
				all = append(all, string(x))
				parts = append(parts, x)
			}
			if s != nil {
				parts = append(parts, s)
			}
			if len(b) > 1 && n > limit {
				t.Fatalf("it %d: a batch of %d bytes, the limit is %d", it, n, limit)
			}
			enc := ""
			for j, x := range parts {
				if js {
					if j > 0 {
						enc += ","
					}
					enc += string(x)
				} else {
					enc += string(binary.BigEndian.AppendUint32(nil, uint32(len(x)))) + string(x)
				}
			}
			if js {
				enc = "[" + enc + "]"
			}
			if ms[i].op != 2 || !ms[i].fin || ms[i].data != enc {
				t.Fatalf("it %d batch %d: %q, want %q", it, i, ms[i].data, enc)
			}
		}
		if strings.Join(all, " ") != strings.Join(want, " ") {
			t.Fatalf("it %d: messages lost, repeated or out of order", it)
		}
	}
	for _, js := range []bool{true, false} {
		for _, n := range []int{65535, 65536, 70000} {
			u := NewUpgrader(vOpts(nil))
			want := string(vPattern(n))
			if js {
				u.EnableJSONBatching(nil, time.Hour)
				want = "[" + want + "]"
			} else {
				u.EnablePrefixBatching(nil, time.Hour)
				want = string(binary.BigEndian.AppendUint32(nil, uint32(n))) + want
			}
			c, tr := vDial(t, u)
			if err := c.Batch(vPattern(n)); err != nil {
				t.Fatal(err)
			}
			u.Flusher.Close()
			vWait(2*time.Second, func() bool { return len(tr.messages(t)) > 0 })
			if ms := tr.messages(t); len(ms) != 1 || ms[0].data != want {
				t.Fatal("a batch of one message of", n, "bytes")
			}
		}
	}
	c, _ := vNew(t, nil)
	if err := c.Batch(nil); err != ErrBatchingUninitialized {
		t.Fatal(err)
	}
	if err := c.BatchJSON(1); err != ErrBatchingUninitialized {
		t.Fatal(err)
	}
	u := NewUpgrader(vOpts(nil))
	ctx, cancel := context.WithCancel(context.Background())
	u.EnableJSONBatching(ctx, time.Hour)
	c, _ = vDial(t, u)
	if err := c.BatchJSON(make(chan int)); err == nil {
		t.Fatal("no error")
	}
	c.Close()
	if err := c.Batch(nil); err != ErrConnClosed {
		t.Fatal(err)
	}
	c, _ = vDial(t, u)
	cancel()
	if err := c.Batch(nil); err != context.Canceled {
		t.Fatal(err)
	}
}
func TestReplay_C21(t *testing.T) { rBatch(t); rFlushers(t) }
func TestReplay_C22(t *testing.T) { rBatch(t) }
func rFlushers(t *testing.T) {
	for it := 0; it < 20; it++ {
		u := NewUpgrader(vOpts(&Options{MaxBatchSize: 10}))
		var mu sync.Mutex
		var got []string
		var in, over int32
		u.EnableBatching(nil, time.Millisecond, func(ctx context.Context, c *Conn, m [][]byte) error {
			if atomic.AddInt32(&in, 1) > 1 {
				atomic.AddInt32(&over, 1)
			}
			time.Sleep(time.Duration(rand.Intn(2)) * time.Millisecond)
			mu.Lock()
			n := 0
			for _, x := range m {
				got = append(got, string(x))
				n += len(x)
			}
			if n > 10 && len(m) > 1 {
				t.Errorf("a batch of %d bytes", n)
			}
			mu.Unlock()
			atomic.AddInt32(&in, -1)
			return nil
		})
		c, _ := vDial(t, u)
		for k := 0; k < 60; k++ {
			if err := c.Batch([]byte(fmt.Sprint(k))); err != nil {
				t.Fatal(err)
			}
		}
		u.Flusher.Close()
		vWait(3*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return len(got) >= 60 })
		mu.Lock()
		for i, x := range got {
			if x != fmt.Sprint(i) {
				t.Fatalf("message %d sent as number %d", i, i)
			}
		}
		if len(got) != 60 || over > 0 {
			t.Fatal("lost, or two batches at once", len(got))
		}
		mu.Unlock()
	}
}

// ---------------------------------------------------------------- callbacks

func rHooks(t *testing.T) {
	u := NewUpgrader(vOpts(&Options{WriteBufferSize: 300}))
	m := NewManager[int](u)
	rm := NewRoomManager[int](u)
	u.EnableJSONBatching(nil, time.Hour)
	u.Limiter = NewRateLimiter(0, 1)
	all := func(c *Conn) {
		c.SendString(context.Background(), []byte("x"))
		c.Ping()
		c.Batch([]byte("1"))
		m.GetAllConns()
		m.Get(1)
		m.BroadcastString(nil, []byte("y"))
		rm.Add(5).Add(c)
		rm.Add(5).Remove(c)
		rm.GetRoomKeys()
		rm.Get(1)
		c.Close()
		m.GetAllConnsAsConn()
		rm.Add(9).GetAllConns()
		u.Limiter.getLimiter(c)
	}
	u.OnConnect = func(c *Conn) {}
	u.OnDisconnect = all
	busy := map[string]bool{}
	var mu sync.Mutex
	once := func(k string, c *Conn) {
		mu.Lock()
		b := busy[k]
		busy[k] = true
		mu.Unlock()
		if !b {
			all(c)
		}
	}
	m.OnRegister = func(c *ManagedConn[int]) { once("r", c.Conn) }
	m.OnUnregister = func(c *ManagedConn[int]) { once("u", c.Conn) }
	rm.DefaultOnJoin = func(r *Room[int], c *Conn, a ...any) {
		if r.Key != 5 {
			once("j", c)
			r.GetAllConns()
			r.Remove(c)
		}
	}
	rm.DefaultOnLeave = func(r *Room[int], c *Conn, a ...any) {
		if r.Key != 5 {
			once("l", c)
		}
	}
	u.Limiter.OnRateLimitHit = func(c *Conn) error { once("h", c); return errV }
	u.Flusher.BatchPrefixFunc = func(c *Conn, b [][]byte) []byte { once("p", c); return nil }
	u.Flusher.BatchSuffixFunc = func(c *Conn, b [][]byte) []byte { once("s", c); return nil }
	for step, f := range []func(){
		func() { c, _ := vDial(t, u); c.Close() },
		func() { c, _ := vDial(t, u); m.Register(1, m.newManagedConn(c, 1)); c.Close() },
		func() { c, _ := vDial(t, u); m.Register(2, m.newManagedConn(c, 2)); c2, _ := vDial(t, u); m.Register(2, m.newManagedConn(c2, 2)) },
		func() { m.Shutdown() },
		func() { c, _ := vDial(t, u); rm.Add(1).Add(c); c.Close() },
		func() { c, _ := vDial(t, u); busy = map[string]bool{"j": true}; rm.Add(2).Add(c); rm.Add(2).RemoveAll() },
		func() { c, _ := vDial(t, u); busy = map[string]bool{"j": true}; rm.Add(2).Add(c); rm.Add(2).Close() },
		func() { c, _ := vDial(t, u); busy = map[string]bool{"j": true}; rm.Add(2).Add(c); rm.Shutdown() },
		func() { c, _ := vDial(t, u, vF(true, 1, "x"), vF(true, 1, "y")); c.ReadString(); c.ReadString() },
		func() { c, _ := vDial(t, u); c.Batch([]byte("1")); u.Flusher.flushAll(); time.Sleep(20 * time.Millisecond); c.Close() },
	} {
		if !vWithin(8*time.Second, f) {
			buf := make([]byte, 1<<16)
			t.Fatalf("step %d: a callback that uses the connection blocks\n%s", step, buf[:runtime.Stack(buf, true)])
		}
	}
	u.Flusher.Close()
}
func TestReplay_C25(t *testing.T) { rHooks(t); rClose(t) }

// ---------------------------------------------------------------- races

func rRace(t *testing.T) {
	for it := 0; it < 30; it++ {
		u := NewUpgrader(vOpts(nil))
		u.EnablePrefixBatching(nil, time.Millisecond)
		u.Limiter = NewRateLimiter(1000, 1000)
		m := NewManager[int](u)
		rm := NewRoomManager[int](u)
		var wg sync.WaitGroup
		for g := 0; g < 6; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 6; k++ {
					c, tr := vDial(t, u)
					m.Register(k%3, m.newManagedConn(c, k%3))
					r := rm.Add(k % 2)
					r.Add(c)
					c.Batch([]byte("x"))
					tr.feed(vF(true, 1, "x"), vF(true, 9, "p"))
					go c.SendString(nil, []byte("y"))
					go c.Ping()
					m.BroadcastString(nil, []byte("b"))
					m.BatchBroadcast(nil, []byte("b"))
					c.ReadString()
					r.GetAllConns()
					m.GetAllConns()
					m.Get(1)
					rm.GetRoomKeys()
					rm.Get(0)
					r.Move(c, 1)
					if k%2 == 0 {
						go c.Close()
					}
					if k == 3 {
						r.RemoveAll()
					}
					if k == 4 && g == 0 {
						m.Shutdown()
						r.Close()
					}
					c.Close()
				}
			}()
		}
		if !vWithin(20*time.Second, wg.Wait) {
			t.Fatal("blocks")
		}
		u.Flusher.Close()
		if !vWithin(10*time.Second, rm.Shutdown) || !vWithin(10*time.Second, m.Shutdown) {
			t.Fatal("shutdown blocks")
		}
		if len(m.GetAllConns()) != 0 {
			t.Fatal("a closed connection is registered")
		}
	}
}
func TestReplay_C24(t *testing.T) { rRace(t); rMix(t); rClose(t) }

// ---------------------------------------------------------------- the handshake

func rDo(u *Upgrader, r *http.Request, pre []byte) (*Conn, error, *vT, *httptest.ResponseRecorder, *int) {
	m := &vT{block: true, closedC: make(chan struct{})}
	rec := httptest.NewRecorder()
	br := bufio.NewReader(m)
	if len(pre) > 0 {
		m.feed(pre)
		br.Peek(len(pre))
	}
	n := 0
	c, err := u.Upgrade(&rHijack{vHijack{rec, m, br}, &n}, r)
	return c, err, m, rec, &n
}

type rHijack struct {
	vHijack
	n *int
}

func (h *rHijack) Hijack() (net.Conn, *bufio.ReadWriter, error) { *h.n++; return h.vHijack.Hijack() }

func rUpgrade(t *testing.T) {
	type tc struct {
		f  func(r *http.Request)
		ok bool
	}
	set := func(k string, vs ...string) func(r *http.Request) {
		return func(r *http.Request) {
			r.Header.Del(k)
			for _, v := range vs {
				r.Header.Add(k, v)
			}
		}
	}
	var cases []tc
	cases = append(cases, tc{func(*http.Request) {}, true})
	for _, m := range []string{"POST", "PUT", "HEAD", "get", ""} {
		cases = append(cases, tc{func(r *http.Request) { r.Method = m }, false})
	}
	for _, v := range []string{"websocket", "WebSocket", "WEBSOCKET", "h2c, websocket", "h2c,websocket", " websocket ", "websocket, h2c"} {
		cases = append(cases, tc{set("Upgrade", v), true})
	}
	cases = append(cases, tc{set("Upgrade", "h2c", "websocket"), true}, tc{set("Connection", "keep-alive", "Upgrade"), true})
	for _, v := range []string{"", "websockets", "h2c", "xwebsocket", "web socket", "websocket;q=1", "websocket/13", ","} {
		cases = append(cases, tc{set("Upgrade", v), false})
	}
	cases = append(cases, tc{set("Upgrade"), false}, tc{set("Connection"), false}, tc{set("Sec-WebSocket-Key"), false}, tc{set("Sec-WebSocket-Version"), false})
	for _, v := range []string{"upgrade", "UPGRADE", "keep-alive, Upgrade", "keep-alive,upgrade", "Upgrade , keep-alive"} {
		cases = append(cases, tc{set("Connection", v), true})
	}
	for _, v := range []string{"", "keep-alive", "upgrades", "noupgrade", "up grade", "upgrade=1"} {
		cases = append(cases, tc{set("Connection", v), false})
	}
	for _, v := range []string{"", "12", "14", "1", "3", "113", "013", "13, 8", "8,13", "thirteen"} {
		cases = append(cases, tc{set("Sec-WebSocket-Version", v), false})
	}
	for _, v := range []string{"", "abc", "dGhlIHNhbXBsZSBub25jZQ", "dGhlIHNhbXBsZSBub25jZQ==x", "AAAAAAAAAAAAAAAAAAAA", "AAAAAAAAAAAAAAAAAAAAAA==AA", "AAAAAAAAAAAAAAAAAAAAAAA=", "AAAAAAAAAAAAAAAAAAA=", "!!!!!!!!!!!!!!!!!!!!!!=="} {
		cases = append(cases, tc{set("Sec-WebSocket-Key", v), false})
	}
	for i, x := range cases {
		u := NewUpgrader(vOpts(nil))
		r := vReq()
		x.f(r)
		conn := 0
		u.OnConnect = func(*Conn) { conn++ }
		c, err, m, _, n := rDo(u, r, nil)
		if (err == nil) != x.ok || (c != nil) != x.ok || (*n > 0) != x.ok || (conn == 1) != x.ok || !x.ok && len(m.writes) > 0 {
			t.Fatalf("case %d (%v %v): upgraded %v, error %v, hijacked %d", i, r.Method, r.Header, c != nil, err, *n)
		}
		if c != nil {
			m.Close()
			c.raw.Close()
			c.Close()
		}
	}
	// subprotocols
	for _, x := range []struct {
		srv    []string
		client []string
		want   string
	}{{nil, nil, ""}, {nil, []string{"a"}, ""}, {[]string{"a"}, nil, ""}, {[]string{}, nil, ""}, {[]string{"a", "b"}, []string{"b, a"}, "b"}, {[]string{"a", "b"}, []string{"c", "a,b"}, "a"}, {[]string{"a"}, []string{"A"}, ""}, {[]string{"chat"}, []string{"chat2, xchat"}, ""}, {[]string{"a", "b"}, []string{" x ,b"}, "b"}, {[]string{"a", "b"}, []string{"x, b"}, "b"}, {[]string{"a", "b"}, []string{"x\t,  b , a"}, "b"}} {
		for reject := 0; reject < 2; reject++ {
			u := NewUpgrader(vOpts(&Options{SubProtocols: x.srv, RejectRaw: reject == 1}))
			r := vReq()
			r.Header["Sec-Websocket-Protocol"] = x.client
			c, err, m, _, n := rDo(u, r, nil)
			if reject == 1 && x.want == "" {
				if err == nil || c != nil || *n > 0 {
					t.Fatal("raw client accepted", x)
				}
				continue
			}
			if err != nil || c.SubProtocol != x.want {
				t.Fatalf("%v: %v, %q", x, err, c.SubProtocol)
			}
			resp := "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: s3pPLMBiTxaQ9kYGzzhZRbK+xOo=\r\n"
			if x.want != "" {
				resp += "Sec-WebSocket-Protocol: " + x.want + "\r\n"
			}
			m.mu.Lock()
			got := string(m.writes[0])
			m.mu.Unlock()
			rs, e1 := http.ReadResponse(bufio.NewReader(strings.NewReader(got)), r)
			wr, _ := http.ReadResponse(bufio.NewReader(strings.NewReader(resp+"\r\n")), r)
			if e1 != nil || !strings.HasSuffix(got, "\r\n\r\n") || rs.StatusCode != 101 || !reflect.DeepEqual(rs.Header, wr.Header) {
				t.Fatalf("response %q", got)
			}
			c.Close()
		}
	}
	for _, code := range []int{100, 200, 204, 301, 400, 401, 500, 503} {
		u := NewUpgrader(vOpts(nil))
		u.Use(func(w http.ResponseWriter, r *http.Request) error { return NewMiddlewareErr(code, "no") })
		if c, err, _, _, n := rDo(u, vReq(), nil); c != nil || err == nil || *n > 0 {
			t.Fatal("upgraded although a middleware returned an error with code", code)
		}
	}
	// middleware
	for k := 0; k < 4; k++ {
		ran := 0
		u := NewUpgrader(vOpts(nil))
		for i := 0; i < 3; i++ {
			u.Use(func(w http.ResponseWriter, r *http.Request) error {
				ran++
				if i == k {
					if k == 1 {
						return NewMiddlewareErr(403, "no")
					}
					return errV
				}
				return nil
			})
		}
		c, err, _, rec, n := rDo(u, vReq(), nil)
		if (err == nil) != (k == 3) || (c != nil) != (k == 3) || (*n > 0) != (k == 3) || k < 3 && ran != k+1 || k == 1 && rec.Code != 403 {
			t.Fatal("middleware", k, err, ran, rec.Code)
		}
		if c != nil {
			c.Close()
		}
	}
	// failing write
	u := NewUpgrader(vOpts(nil))
	u.Limiter = NewRateLimiter(1, 1)
	m := &vT{block: true, closedC: make(chan struct{}), onWrite: func([]byte) (int, error, bool) { return 0, errV, true }}
	before := runtime.NumGoroutine()
	c, err := u.Upgrade(&vHijack{httptest.NewRecorder(), m, bufio.NewReader(m)}, vReq())
	if c != nil || err == nil || !m.isClosed() || len(u.Limiter.clients) != 0 {
		t.Fatal("failed handshake", c != nil, err)
	}
	if !vWait(2*time.Second, func() bool { return runtime.NumGoroutine() <= before }) {
		t.Fatal("a failed handshake leaves a goroutine")
	}
}
func TestReplay_C15(t *testing.T) { rUpgrade(t) }
func TestReplay_C16(t *testing.T) { rUpgrade(t) }
func TestReplay_C17(t *testing.T) {
	data := append(vF(true, 1, string(make([]byte, 50))), vF(true, 2, string(vPattern(6000)))...)
	data = append(data, vF(true, 9, strings.Repeat("p", 125))...)
	data = append(data, vF(true, 1, "end")...)
	for _, rb := range []int{0, 1, 16, 124, 125, 126, 200, 4096, 5000, 8192} {
		for _, pre := range []int{0, 1, 2, 5, 50, 56, 57, 60, 500, 3000, 4095, 4096} {
			u := NewUpgrader(vOpts(&Options{ReadBufferSize: rb}))
			m := &vT{block: true, closedC: make(chan struct{})}
			br := bufio.NewReader(m)
			if pre > 0 {
				m.feed(data[:pre])
				br.Peek(pre)
			}
			c, err := u.Upgrade(&vHijack{httptest.NewRecorder(), m, br}, vReq())
			if err != nil {
				t.Fatal(err)
			}
			m.feed(data[pre:])
			var a, b, e []byte
			if !vWithin(5*time.Second, func() {
				a, err = c.ReadString()
				if err == nil {
					b, err = c.ReadBinary()
				}
				if err == nil {
					e, err = c.ReadString()
				}
			}) || err != nil || len(a) != 50 || string(b) != string(vPattern(6000)) || string(e) != "end" {
				t.Fatalf("read buffer %d, %d bytes already read: %v", rb, pre, err)
			}
			c.Close()
		}
	}
	rReadN(t, 300)
}
func TestReplay_C26(t *testing.T) {
	d := func(o *Options) {
		u := NewUpgrader(o)
		w := Options{}
		if o != nil {
			w = *o
		}
		x := u.Options
		if x.WriteWait <= 0 || x.ReadWait <= 0 || x.PingEvery <= 0 || x.MaxMessageSize == 0 || x.WriteBufferSize <= MaxHeaderSize || x.BroadcastChannelsSize == 0 || x.MaxBatchSize == 0 {
			t.Fatalf("%+v", x)
		}
		_ = w
	}
	d(nil)
	u := NewUpgrader(nil)
	if u.WriteWait != 5*time.Second || u.ReadWait != time.Minute || u.PingEvery != 50*time.Second || u.MaxMessageSize != 1<<20 || u.MaxBatchSize != 1<<20 || u.WriteBufferSize != 4096 || u.BroadcastChannelsSize != 8 {
		t.Fatalf("%+v", u.Options)
	}
	for i := 0; i < 256; i++ {
		o := &Options{}
		f := func(k int) int { return i >> k & 1 }
		o.WriteWait = time.Duration(f(0) * 7)
		o.ReadWait = time.Duration(f(1) * 8)
		o.PingEvery = time.Duration(f(2) * 9)
		o.MaxMessageSize = f(3) * -1
		o.WriteBufferSize = f(4) * 15
		o.BroadcastChannelsSize = f(5)
		o.MaxBatchSize = f(6) * 3
		o.ReadBufferSize = f(7) * 200
		w := *o
		d(o)
		ck := func(name string, a, b, def any) {
			if reflect.ValueOf(a).IsZero() {
				a = def
			}
			if a != b {
				t.Fatalf("%d: %s is %v, want %v", i, name, b, a)
			}
		}
		ck("WriteWait", w.WriteWait, o.WriteWait, 5*time.Second)
		ck("ReadWait", w.ReadWait, o.ReadWait, time.Minute)
		ck("PingEvery", w.PingEvery, o.PingEvery, 50*time.Second)
		ck("MaxMessageSize", w.MaxMessageSize, o.MaxMessageSize, 1<<20)
		ck("WriteBufferSize", w.WriteBufferSize, o.WriteBufferSize, 4096)
		ck("BroadcastChannelsSize", w.BroadcastChannelsSize, o.BroadcastChannelsSize, 8)
		ck("MaxBatchSize", w.MaxBatchSize, o.MaxBatchSize, 1<<20)
		if o.ReadBufferSize != w.ReadBufferSize {
			t.Fatal("ReadBufferSize")
		}
	}
	for _, n := range []int{-3, 1, 5, 13, 14, 15, 16, 64, 4095, 4096, 4097, 9000} {
		for p := 0; p < 2; p++ {
			c, m := vNew(t, &Options{WriteBufferSize: n, DisableWriteBuffersPooling: p == 1})
			want := n
			if n <= MaxHeaderSize {
				want = max(n, 1) + MaxHeaderSize
			}
			if len(c.writer.buf) != want {
				t.Fatalf("write buffer of %d bytes, configured %d", len(c.writer.buf), n)
			}
			if !vWithin(5*time.Second, func() { c.SendString(nil, []byte("hello world, hello world")) }) {
				t.Fatal("blocks")
			}
			if ms := m.messages(t); len(ms) != 1 || ms[0].data != "hello world, hello world" {
				t.Fatal(ms)
			}
			c.Close()
		}
	}
	for _, n := range []int{0, 1, 16, 124, 125, 126, 4095, 4096, 4097, 9000} {
		c, _ := vNew(t, &Options{ReadBufferSize: n})
		want := max(n, 125)
		if n == 0 {
			want = 4096
		}
		if c.readBuf.Size() != want {
			t.Fatalf("read buffer of %d bytes, configured %d", c.readBuf.Size(), n)
		}
	}
}

// ---------------------------------------------------------------- goroutines

func TestReplay_C28(t *testing.T) {
	rUpgrade(t)
	before := runtime.NumGoroutine()
	for it := 0; it < 30; it++ {
		u := NewUpgrader(vOpts(&Options{PingEvery: 3 * time.Millisecond, BroadcastChannelsSize: 1, WriteWait: time.Second}))
		ctx, cancel := context.WithCancel(context.Background())
		u.EnablePrefixBatching(ctx, time.Millisecond)
		m := NewManager[int](u)
		rm := NewRoomManager[int](u)
		c, tr := vDial(t, u)
		m.Register(1, m.newManagedConn(c, 1))
		rm.Add(1).Add(c)
		m.BroadcastString(nil, []byte("x"))
		c.Batch([]byte("x"))
		if it%3 == 0 {
			tr.mu.Lock()
			tr.onWrite = func([]byte) (int, error, bool) { return 0, errV, true }
			tr.mu.Unlock()
		}
		w, _ := c.NextWriter(nil, 1)
		m.BroadcastString(nil, []byte("x"))
		if it%2 == 0 {
			time.Sleep(5 * time.Millisecond)
		}
		c.Close()
		if w != nil && it%4 == 0 {
			w.Close()
		}
		if it%2 == 0 {
			cancel()
		} else {
			u.Flusher.Close()
			defer cancel()
		}
	}
	if !vWait(8*time.Second, func() bool { return runtime.NumGoroutine() <= before+1 }) {
		buf := make([]byte, 1<<16)
		t.Fatalf("%d goroutines are left\n%s", runtime.NumGoroutine()-before, buf[:runtime.Stack(buf, true)])
	}
}
