package memcache

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
	"unsafe"
)

func verifRand() *rand.Rand {
	s, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(s) + 12345))
}

func sliceStart[T any](b []T) uintptr {
	if cap(b) == 0 {
		return 0
	}
	return uintptr(unsafe.Pointer(&b[:1][0]))
}

func verifSizes(r *rand.Rand) int {
	switch r.Intn(4) {
	case 0:
		return r.Intn(300)
	case 1:
		return 1<<r.Intn(22) + r.Intn(3) - 1
	case 2:
		return r.Intn(5000)
	}
	return 64<<r.Intn(8) + r.Intn(5) - 2
}

// verifWithin fails the test when f neither returns nor panics in time.
func verifWithin(t *testing.T, d time.Duration, what string, f func()) {
	t.Helper()
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			t.Fatalf("%s: panic: %v", what, r)
		}
	case <-time.After(d):
		buf := make([]byte, 1<<16)
		t.Fatalf("%s: still blocked after %v\n%s", what, d, buf[:runtime.Stack(buf, true)])
	}
}

// verifBudget is the time a random test may use.
func verifBudget() time.Duration {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 12 * time.Second
	}
	return 4 * time.Second
}

// ---- an in-memory memcached speaking the meta protocol, one per connection

type vServer struct {
	mu    sync.Mutex
	conns []*vConn

	// chunk decides how many bytes the next read may return
	chunk func() int
	// reply answers one request; "" means the default answer
	reply func(c *vConn, req vReq) string
	// onConn may set failure points of a new connection
	onConn func(c *vConn)
	// dialErr makes dialing fail
	dialErr func(n int) error
	hold    bool // replies are kept back
	dials   int
}

type vReq struct {
	verb, key string
	line      string
	value     []byte
}

type vConn struct {
	srv *vServer
	id  int

	mu   sync.Mutex
	cond *sync.Cond

	in      []byte // bytes received, complete history
	parsed  int
	out     []byte // replies not yet read
	held    []byte
	reqs    []vReq
	bad     string
	closed  bool
	closes  int
	eof     bool
	readErr error // returned when out is empty

	failWriteAt      int // number of written bytes after which writes fail; <0 never
	failReadAt       int // number of read bytes after which reads fail; <0 never
	nread            int
	writesAfterClose int
}

func (s *vServer) dial(_, _ string, _ time.Duration) (net.Conn, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.dials++
	if s.dialErr != nil {
		if err := s.dialErr(s.dials); err != nil {
			return nil, err
		}
	}
	c := &vConn{srv: s, id: len(s.conns), failWriteAt: -1, failReadAt: -1}
	c.cond = sync.NewCond(&c.mu)
	if s.onConn != nil {
		s.onConn(c)
	}
	s.conns = append(s.conns, c)
	return c, nil
}

var errVerifConn = errors.New("verif: connection failed")

func (c *vConn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		c.writesAfterClose++
		return 0, net.ErrClosed
	}
	n := len(p)
	var err error
	if c.failWriteAt >= 0 && len(c.in)+n > c.failWriteAt {
		n = c.failWriteAt - len(c.in)
		if n < 0 {
			n = 0
		}
		err = errVerifConn
	}
	c.in = append(c.in, p[:n]...)
	c.serve()
	return n, err
}

// serve parses complete requests strictly and queues their replies.
func (c *vConn) serve() {
	for c.bad == "" {
		rest := c.in[c.parsed:]
		i := bytes.Index(rest, []byte("\r\n"))
		if i < 0 {
			return
		}
		line := string(rest[:i])
		used := i + 2
		f := strings.Split(line, " ")
		req := vReq{verb: f[0], line: line}
		if len(f) > 1 {
			req.key = f[1]
		}
		if req.verb == "ms" {
			if len(f) < 3 {
				c.bad = "ms without a length: " + strconv.Quote(line)
				return
			}
			n, err := strconv.Atoi(f[2])
			if err != nil || n < 0 {
				c.bad = "ms with a bad length: " + strconv.Quote(line)
				return
			}
			if len(rest) < used+n+2 {
				return
			}
			req.value = append([]byte(nil), rest[used:used+n]...)
			if string(rest[used+n:used+n+2]) != "\r\n" {
				c.bad = "value without CRLF after " + strconv.Quote(line)
				return
			}
			used += n + 2
		}
		c.parsed += used
		c.reqs = append(c.reqs, req)
		r := ""
		if c.srv.reply != nil {
			r = c.srv.reply(c, req)
		}
		if r == "" {
			r = vDefaultReply(req)
		}
		if c.srv.hold {
			c.held = append(c.held, r...)
		} else {
			c.out = append(c.out, r...)
			c.cond.Broadcast()
		}
	}
}

func vHash(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h ^ h>>15
}

func vValue(key string) string {
	h := vHash(key)
	n := int(h % 40)
	if h%97 == 0 {
		n = int(h % 5000)
	}
	return "<" + key + ">" + strings.Repeat("\r\nV", n/3) + strings.Repeat("z", n%3)
}

// vDefaultReply is the answer to a request; it names the key where it can.
func vDefaultReply(r vReq) string {
	h := vHash(r.key)
	switch r.verb {
	case "mg":
		switch h % 8 {
		case 0:
			return "EN\r\n"
		case 1:
			return "HD W\r\n"
		case 2:
			return "SERVER_ERROR no " + r.key + "\r\n"
		case 3:
			v := vValue(r.key)
			return fmt.Sprintf("VA %d c%d W Z\r\n%s\r\n", len(v), h, v)
		default:
			v := vValue(r.key)
			return fmt.Sprintf("VA %d\r\n%s\r\n", len(v), v)
		}
	case "ms":
		return []string{"HD\r\n", "NS\r\n", "EX\r\n", "NF\r\n", "SERVER_ERROR set " + r.key + "\r\n"}[h%5]
	case "md":
		return []string{"HD\r\n", "NF\r\n", "EX\r\n", "SERVER_ERROR del " + r.key + "\r\n"}[h%4]
	case "version":
		return "VERSION 1.6.12\r\n"
	case "flush_all":
		return "OK\r\n"
	}
	return "ERROR\r\n"
}

func (c *vConn) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for len(c.out) == 0 && !c.closed && c.readErr == nil && !(c.failReadAt >= 0 && c.nread >= c.failReadAt) {
		c.cond.Wait()
	}
	if c.closed {
		return 0, net.ErrClosed
	}
	if c.failReadAt >= 0 && c.nread >= c.failReadAt {
		return 0, errVerifConn
	}
	if len(c.out) == 0 {
		return 0, c.readErr
	}
	n := len(c.out)
	if c.srv.chunk != nil {
		if k := c.srv.chunk(); k < n {
			n = k
		}
	}
	if c.failReadAt >= 0 && c.nread+n > c.failReadAt {
		n = c.failReadAt - c.nread
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, c.out[:n])
	c.out = c.out[n:]
	c.nread += n
	return n, nil
}

func (c *vConn) release() {
	c.mu.Lock()
	c.out = append(c.out, c.held...)
	c.held = nil
	c.cond.Broadcast()
	c.mu.Unlock()
}

func (c *vConn) fail(err error) {
	c.mu.Lock()
	c.readErr = err
	c.cond.Broadcast()
	c.mu.Unlock()
}

func (c *vConn) Close() error {
	c.mu.Lock()
	c.closed = true
	c.closes++
	c.cond.Broadcast()
	c.mu.Unlock()
	return nil
}

func (c *vConn) LocalAddr() net.Addr              { return nil }
func (c *vConn) RemoteAddr() net.Addr             { return nil }
func (c *vConn) SetDeadline(time.Time) error      { return nil }
func (c *vConn) SetReadDeadline(time.Time) error  { return nil }
func (c *vConn) SetWriteDeadline(time.Time) error { return nil }

func (s *vServer) snapshot() []*vConn {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*vConn(nil), s.conns...)
}

func vClient(t *testing.T, s *vServer, n int, opts ...Option) *Client {
	t.Helper()
	all := append([]Option{
		WithDialFunc(s.dial), WithRetryDuration(2 * time.Millisecond), WithHealthCheckDuration(time.Hour),
		WithDialErrorLogger(func(error) {}),
	}, opts...)
	c, err := New("verif", n, all...)
	if err != nil {
		t.Fatal(err)
	}
	return c
}

func vKey(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(0x21 + r.Intn(0x7e-0x21+1))
	}
	return string(b)
}

var vUniq int
var vUniqMu sync.Mutex

// vUniqKey is a key that no other command of the test process uses.
func vUniqKey() string {
	vUniqMu.Lock()
	defer vUniqMu.Unlock()
	vUniq++
	return "k" + strconv.Itoa(vUniq)
}

// vIssued is a command issued on a pipeline with the check of its own reply.
type vIssued struct {
	enc   string
	check func() error // nil: the reply was this command's; errors mention what differed
	key   string
}

type vConnError struct{ err error }

func (e vConnError) Error() string { return "connection error: " + e.err.Error() }

// vIssue puts one random command on the pipeline; check calls its result function.
func vIssue(r *rand.Rand, p *Pipeline) vIssued {
	key := vUniqKey()
	switch r.Intn(12) {
	case 0, 1, 2:
		val := make([]byte, r.Intn(60))
		r.Read(val)
		fn := p.MSet(key, val, MSetOptions{})
		return vIssued{key: key, enc: fmt.Sprintf("ms %s %d\r\n%s\r\n", key, len(val), val), check: func() error {
			resp, err := fn()
			return vCheckSimple(vReq{verb: "ms", key: key}, int(resp.Type), err)
		}}
	case 3, 4:
		fn := p.MDel(key, MDelOptions{})
		return vIssued{key: key, enc: "md " + key + "\r\n", check: func() error {
			resp, err := fn()
			return vCheckSimple(vReq{verb: "md", key: key}, int(resp.Type), err)
		}}
	case 5:
		fn := p.Version()
		return vIssued{enc: "version\r\n", check: func() error {
			resp, err := fn()
			if err != nil {
				return vConnError{err}
			}
			if resp.Version != "1.6.12" {
				return fmt.Errorf("version: got %q", resp.Version)
			}
			return nil
		}}
	case 6:
		fn := p.FlushAll()
		return vIssued{enc: "flush_all\r\n", check: func() error {
			if err := fn(); err != nil {
				return vConnError{err}
			}
			return nil
		}}
	}
	fn := p.MGet(key, MGetOptions{})
	return vIssued{key: key, enc: "mg " + key + " v\r\n", check: func() error {
		resp, err := fn()
		want := vDefaultReply(vReq{verb: "mg", key: key})
		if se, ok := err.(ErrServerError); ok {
			if want != "SERVER_ERROR "+se.Message+"\r\n" {
				return fmt.Errorf("mg %s: got server error %q, the server said %q", key, se.Message, want)
			}
			return nil
		}
		if err != nil {
			return vConnError{err}
		}
		got := ""
		switch resp.Type {
		case MGetResponseTypeEN:
			got = "EN\r\n"
		case MGetResponseTypeHD:
			got = "HD"
			if resp.Flags == MGetFlagW {
				got += " W"
			}
			got += "\r\n"
		case MGetResponseTypeVA:
			got = fmt.Sprintf("VA %d", len(resp.Data))
			if resp.CAS != 0 {
				got += fmt.Sprintf(" c%d", resp.CAS)
			}
			if resp.Flags == MGetFlagW|MGetFlagZ {
				got += " W Z"
			} else if resp.Flags != 0 {
				got += fmt.Sprintf(" flags %d", resp.Flags)
			}
			got += "\r\n" + string(resp.Data) + "\r\n"
		}
		if got != want {
			return fmt.Errorf("mg %s: got %q, the server said %q", key, got, want)
		}
		return nil
	}}
}

func vCheckSimple(r vReq, typ int, err error) error {
	want := vDefaultReply(r)
	if se, ok := err.(ErrServerError); ok {
		if want != "SERVER_ERROR "+se.Message+"\r\n" {
			return fmt.Errorf("%s %s: got server error %q, the server said %q", r.verb, r.key, se.Message, want)
		}
		return nil
	}
	if err != nil {
		return vConnError{err}
	}
	names := []string{"HD", "NS", "EX", "NF"}
	if r.verb == "md" {
		names = []string{"HD", "NF", "EX"}
	}
	if typ < 1 || typ > len(names) || names[typ-1]+"\r\n" != want {
		return fmt.Errorf("%s %s: got type %d, the server said %q", r.verb, r.key, typ, want)
	}
	return nil
}

var _ = io.EOF

func verifMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}
