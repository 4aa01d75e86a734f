package netconn

import (
	"errors"
	"net"
	"testing"
	"time"
)

type fakeConn struct {
	net.Conn
	log    []string
	rdl    time.Time
	wdl    time.Time
	reply  []byte
	split  int
	wErr   error
	rErr   error
	closed int
}

func (c *fakeConn) Close() error { c.closed++; return nil }
func (c *fakeConn) SetReadDeadline(t time.Time) error {
	c.rdl = t
	return nil
}
func (c *fakeConn) SetWriteDeadline(t time.Time) error {
	c.wdl = t
	return nil
}
func (c *fakeConn) Write(p []byte) (int, error) {
	if c.wErr != nil {
		return 0, c.wErr
	}
	c.log = append(c.log, string(p))
	return len(p), nil
}
func (c *fakeConn) Read(p []byte) (int, error) {
	if len(c.reply) == 0 {
		if c.rErr != nil {
			return 0, c.rErr
		}
		return 0, errors.New("EOF")
	}
	n := len(p)
	if c.split > 0 && n > c.split {
		n = c.split
	}
	n = copy(p[:n], c.reply)
	c.reply = c.reply[n:]
	return n, nil
}

func TestVerif_C21_Auth(t *testing.T) {
	auth, err := NewPasswordAuth("user01", "pass01")
	if err != nil {
		t.Fatal(err)
	}
	replies := []string{"STORED\r\n", "STORED\r\nmore", "STORED\r", "STORED", "STORE", "", "stored\r\n", "STORED\n\n", "STORED\r\r", "NOT_STORED\r\n",
		"CLIENT_ERROR authentication failure\r\n", "ERROR\r\n", "STORED  ", "STOREX\r\n", "XTORED\r\n", "SERVER_ERROR\r\n"}
	for _, rep := range replies {
		for split := 0; split < 10; split++ {
			for _, f := range []string{"", "write", "read"} {
				c := &fakeConn{reply: []byte(rep), split: split}
				good := len(rep) >= 8 && rep[:8] == "STORED\r\n" && f == ""
				switch f {
				case "write":
					c.wErr = errors.New("broken")
				case "read":
					c.reply = nil
					c.rErr = errors.New("broken")
				}
				nc, err := auth.GetDialFunc(func(string, string, time.Duration) (net.Conn, error) { return c, nil })("tcp", "x", time.Second)
				if good {
					if err != nil || nc != net.Conn(c) || c.closed != 0 {
						t.Fatalf("reply %q in pieces of %d: refused: %v", rep, split, err)
					}
					continue
				}
				if err == nil || nc != nil {
					t.Fatalf("reply %q in pieces of %d (failure %q): connection handed out", rep, split, f)
				}
				if c.closed == 0 {
					t.Fatalf("reply %q in pieces of %d (failure %q): connection left open", rep, split, f)
				}
			}
		}
	}
	if _, err := auth.GetDialFunc(func(string, string, time.Duration) (net.Conn, error) { return nil, errors.New("no") })("tcp", "x", time.Second); err == nil {
		t.Fatal("failed dial reported as success")
	}
}

func TestVerif_C21_Deadlines(t *testing.T) {
	for _, d := range []time.Duration{time.Second, 3 * time.Minute, 50 * time.Millisecond} {
		c := &fakeConn{reply: make([]byte, 1000)}
		nc, err := DialNewConn("x", WithBufferSize(64), WithReadTimeout(d), WithWriteTimeout(2*d),
			WithDialFunc(func(string, string, time.Duration) (net.Conn, error) { return c, nil }))
		if err != nil {
			t.Fatal(err)
		}
		near := func(kind string, at time.Time, from time.Time, d time.Duration) {
			if at.Before(from.Add(d)) || at.After(time.Now().Add(d)) {
				t.Fatalf("%s: deadline %v, want %v from now", kind, at.Sub(from), d)
			}
		}
		for i := 0; i < 5; i++ {
			c.wdl, c.rdl = time.Time{}, time.Time{}
			from := time.Now()
			n := len(c.log)
			if _, err := nc.Writer.Write(make([]byte, 10+i*50)); err != nil {
				t.Fatal(err)
			}
			if err := nc.Writer.Flush(); err != nil {
				t.Fatal(err)
			}
			if len(c.log) == n {
				t.Fatal("nothing written")
			}
			near("write", c.wdl, from, 2*d)
			from = time.Now()
			if _, err := nc.Reader.Read(make([]byte, 10)); err != nil {
				t.Fatal(err)
			}
			near("read", c.rdl, from, d)
		}
		_ = nc.Closer.Close()
		if c.closed != 1 {
			t.Fatal("closing does not close the connection")
		}
	}
}
