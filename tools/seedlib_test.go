package snapws

// A scripted in-memory transport, and a connection made over it through the public upgrade path.

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"sync"
	"testing"
	"time"
)

var errV = errors.New("transport failed")

type vT struct {
	mu      sync.Mutex
	in      []byte
	chunk   int   // at most that many bytes per read
	rerr    error // returned by the read that delivers the last byte
	block   bool  // at the end of the input reads wait for the close
	writes  [][]byte
	onWrite func(b []byte) (n int, err error, done bool) // called without the lock
	onDL    func() error
	closes  int
	closedC chan struct{}
	inWrite int
	overlap bool
}

func (m *vT) Read(b []byte) (int, error) {
	for {
		m.mu.Lock()
		if m.closes > 0 {
			m.mu.Unlock()
			return 0, net.ErrClosed
		}
		if len(m.in) > 0 {
			k := len(b)
			if m.chunk > 0 && k > m.chunk {
				k = m.chunk
			}
			k = copy(b[:k], m.in)
			m.in = m.in[k:]
			var err error
			if len(m.in) == 0 {
				err = m.rerr
			}
			m.mu.Unlock()
			return k, err
		}
		blk := m.block
		m.mu.Unlock()
		if !blk {
			return 0, io.EOF
		}
		select {
		case <-m.closedC:
		case <-time.After(time.Millisecond):
		}
	}
}
func (m *vT) feed(b ...[]byte) {
	m.mu.Lock()
	m.in = append(m.in, bytes.Join(b, nil)...)
	m.mu.Unlock()
}
func (m *vT) Write(b []byte) (int, error) {
	m.mu.Lock()
	m.inWrite++
	if m.inWrite > 1 {
		m.overlap = true
	}
	hook := m.onWrite
	closed := m.closes > 0
	m.mu.Unlock()
	defer func() { m.mu.Lock(); m.inWrite--; m.mu.Unlock() }()
	if closed {
		return 0, net.ErrClosed
	}
	if hook != nil {
		n, err, done := hook(b)
		if done {
			if n > 0 {
				m.mu.Lock()
				m.writes = append(m.writes, append([]byte(nil), b[:n]...))
				m.mu.Unlock()
			}
			return n, err
		}
	}
	m.mu.Lock()
	m.writes = append(m.writes, append([]byte(nil), b...))
	m.mu.Unlock()
	return len(b), nil
}
func (m *vT) Close() error {
	m.mu.Lock()
	m.closes++
	if m.closes == 1 {
		close(m.closedC)
	}
	m.mu.Unlock()
	return nil
}
func (m *vT) LocalAddr() net.Addr               { return &net.TCPAddr{} }
func (m *vT) RemoteAddr() net.Addr              { return &net.TCPAddr{} }
func (m *vT) SetDeadline(time.Time) error       { return nil }
func (m *vT) SetReadDeadline(time.Time) error   { return nil }
func (m *vT) SetWriteDeadline(time.Time) error {
	if m.onDL != nil {
		return m.onDL()
	}
	return nil
}
func (m *vT) isClosed() bool { m.mu.Lock(); defer m.mu.Unlock(); return m.closes > 0 }

// what was written after the handshake response, one element per write
func (m *vT) out() [][]byte {
	m.mu.Lock()
	defer m.mu.Unlock()
	w := m.writes
	if len(w) > 0 && bytes.HasPrefix(w[0], []byte("HTTP/1.1")) {
		w = w[1:]
	}
	return append([][]byte(nil), w...)
}

type vFrame struct {
	fin     bool
	op      byte
	payload string
}

// vParse reads one write as one frame
func vParse(b []byte) (f vFrame, ok bool) {
	if len(b) < 2 || b[1]&0x80 != 0 || b[0]&0x70 != 0 {
		return f, false
	}
	n, h := int(b[1]), 2
	switch n {
	case 126:
		if len(b) < 4 {
			return f, false
		}
		n, h = int(binary.BigEndian.Uint16(b[2:])), 4
		ok = n > 125
	case 127:
		if len(b) < 10 {
			return f, false
		}
		n, h = int(binary.BigEndian.Uint64(b[2:])), 10
		ok = n > 65535
	default:
		ok = true
	}
	op := b[0] & 15
	if !ok || len(b) != h+n || !(op <= 2 || 8 <= op && op <= 10) || op >= 8 && (b[0]&0x80 == 0 || n > 125) {
		return f, false
	}
	return vFrame{b[0]&0x80 != 0, op, string(b[h:])}, true
}
func (m *vT) frames(t testing.TB) []vFrame {
	var fs []vFrame
	for i, b := range m.out() {
		f, ok := vParse(b)
		if !ok {
			t.Fatalf("write %d is not one well-formed frame: % x", i, b[:min(len(b), 20)])
		}
		fs = append(fs, f)
	}
	return fs
}

type vMsg struct {
	op   byte
	data string
	fin  bool
}

// vMessages assembles the data messages; fails on an illegal sequence
func (m *vT) messages(t testing.TB) []vMsg {
	var ms []vMsg
	open := false
	for _, f := range m.frames(t) {
		if f.op >= 8 {
			continue
		}
		if open != (f.op == 0) {
			t.Fatalf("frame of type %d while a message is open: %v", f.op, open)
		}
		if !open {
			ms = append(ms, vMsg{op: f.op})
		}
		ms[len(ms)-1].data += f.payload
		ms[len(ms)-1].fin = f.fin
		open = !f.fin
	}
	return ms
}

// closeCodes lists the codes of the close frames written
func (m *vT) closeCodes(t testing.TB) []int {
	var cs []int
	for _, f := range m.frames(t) {
		if f.op == 8 {
			c := 0
			if len(f.payload) >= 2 {
				c = int(f.payload[0])<<8 | int(f.payload[1])
			}
			cs = append(cs, c)
		}
	}
	return cs
}

type vHijack struct {
	*httptest.ResponseRecorder
	c  net.Conn
	br *bufio.Reader
}

func (h *vHijack) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	return h.c, bufio.NewReadWriter(h.br, bufio.NewWriterSize(h.c, 4096)), nil
}
func vReq() *http.Request {
	r := httptest.NewRequest("GET", "/", nil)
	r.Header.Set("Upgrade", "websocket")
	r.Header.Set("Connection", "Upgrade")
	r.Header.Set("Sec-WebSocket-Version", "13")
	r.Header.Set("Sec-WebSocket-Key", "dGhlIHNhbXBsZSBub25jZQ==")
	return r
}
func vOpts(o *Options) *Options {
	if o == nil {
		o = &Options{}
	}
	if o.WriteWait == 0 {
		o.WriteWait = 2 * time.Second
	}
	if o.ReadWait == 0 {
		o.ReadWait = 2 * time.Second
	}
	return o
}

// a connection whose input is given; reads wait at its end
func vDial(t testing.TB, u *Upgrader, in ...[]byte) (*Conn, *vT) {
	m := &vT{block: true, closedC: make(chan struct{})}
	c, err := u.Upgrade(&vHijack{httptest.NewRecorder(), m, bufio.NewReader(m)}, vReq())
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() {
		m.mu.Lock()
		m.onWrite = nil
		m.mu.Unlock()
		m.Close()
		c.raw.Close()
	})
	m.feed(in...)
	return c, m
}
func vNew(t testing.TB, o *Options, in ...[]byte) (*Conn, *vT) {
	return vDial(t, NewUpgrader(vOpts(o)), in...)
}

var vKey = [4]byte{0xa1, 0x52, 0x3c, 0x7e}

// client frame with any bits
func vRaw(b0 byte, masked bool, payload string) []byte {
	out := []byte{b0}
	mb := byte(0)
	if masked {
		mb = 0x80
	}
	switch n := len(payload); {
	case n < 126:
		out = append(out, mb|byte(n))
	case n < 65536:
		out = append(out, mb|126, byte(n>>8), byte(n))
	default:
		out = append(out, mb|127)
		out = binary.BigEndian.AppendUint64(out, uint64(n))
	}
	if masked {
		out = append(out, vKey[:]...)
	}
	for i := 0; i < len(payload); i++ {
		if masked {
			out = append(out, payload[i]^vKey[i%4])
		} else {
			out = append(out, payload[i])
		}
	}
	return out
}
func vF(fin bool, op byte, payload string) []byte {
	if fin {
		op |= 0x80
	}
	return vRaw(op, true, payload)
}

// vWithin reports whether f returns in time
func vWithin(d time.Duration, f func()) bool {
	c := make(chan struct{})
	go func() { f(); close(c) }()
	select {
	case <-c:
		return true
	case <-time.After(d):
		return false
	}
}
func vDone(c *Conn) bool {
	select {
	case <-c.done:
		return true
	default:
		return false
	}
}
func vWait(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}
func vPattern(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i/251)
	}
	return b
}

var _ = context.Background
