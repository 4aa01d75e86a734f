package memcache

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"strings"
	"testing"
	"time"
)

// TestVerif_C01_Bytes compares what the server receives with the reference encoding.
func TestVerif_C01_Bytes(t *testing.T) {
	r := verifRand()
	nums := []uint64{0, 1, 9, 10, 11, 99, 100, 101, 65535, math.MaxUint32 - 1, math.MaxUint32, 1 << 40, math.MaxInt64, 1 << 63, 10000000000000000000, math.MaxUint64}
	num := func() uint64 {
		switch r.Intn(4) {
		case 0:
			return 0
		case 1:
			return nums[r.Intn(len(nums))]
		}
		return r.Uint64() >> r.Intn(64)
	}
	flags := func(list []string) string {
		return strings.Join(list, "")
	}
	end := time.Now().Add(verifBudget())
	for round := 0; time.Now().Before(end); round++ {
		srv := &vServer{}
		max := []int{1, 2, 3, 7, 100}[r.Intn(5)]
		c := vClient(t, srv, 1, WithMaxCommandsPerBatch(max), WithWriteLimit(1+r.Intn(600)), WithBufferSize(16+r.Intn(5000)))
		want := ""
		verifWithin(t, 20*time.Second, "pipeline", func() {
			for k := 0; k < 1+r.Intn(4); k++ {
				p := c.Pipeline()
				for n := r.Intn(12); n >= 0; n-- {
					key := vKey(r, 1+r.Intn(20))
					if r.Intn(8) == 0 {
						key = vKey(r, 250)
					}
					switch r.Intn(6) {
					case 0:
						o := MGetOptions{N: uint32(num()), CAS: r.Intn(2) == 0}
						var f []string
						if o.CAS {
							f = append(f, " c")
						}
						if o.N > 0 {
							f = append(f, fmt.Sprintf(" N%d", o.N))
						}
						want += "mg " + key + flags(f) + " v\r\n"
						if r.Intn(2) == 0 {
							_, _ = p.MGetFast(key, o)
						} else {
							p.MGet(key, o)
						}
					case 1, 2:
						val := make([]byte, verifSizes(r)%70000)
						r.Read(val)
						o := MSetOptions{CAS: num(), TTL: uint32(num())}
						want += fmt.Sprintf("ms %s %d", key, len(val))
						if o.CAS > 0 {
							want += fmt.Sprintf(" C%d", o.CAS)
						}
						if o.TTL > 0 {
							want += fmt.Sprintf(" T%d", o.TTL)
						}
						want += "\r\n" + string(val) + "\r\n"
						p.MSet(key, val, o)
						r.Read(val) // the caller may reuse its buffer
					case 3:
						o := MDelOptions{CAS: num(), I: r.Intn(2) == 0, TTL: uint32(num())}
						want += "md " + key
						if o.CAS > 0 {
							want += fmt.Sprintf(" C%d", o.CAS)
						}
						if o.I {
							want += " I"
							if o.TTL > 0 {
								want += fmt.Sprintf(" T%d", o.TTL)
							}
						}
						want += "\r\n"
						p.MDel(key, o)
					case 4:
						want += "version\r\n"
						p.Version()
					case 5:
						want += "flush_all\r\n"
						p.FlushAll()
					}
				}
				p.Finish()
			}
		})
		conns := srv.snapshot()
		conns[0].mu.Lock()
		got := string(conns[0].in)
		conns[0].mu.Unlock()
		if got != want || len(conns) != 1 {
			i := 0
			for i < len(got) && i < len(want) && got[i] == want[i] {
				i++
			}
			lo, cut := i-40, func(s string, a, b int) string {
				if a < 0 {
					a = 0
				}
				if b > len(s) {
					b = len(s)
				}
				if a > b {
					a = b
				}
				return s[a:b]
			}
			t.Fatalf("round %d: %d bytes sent, %d expected, first difference at %d: sent %q, expected %q", round, len(got), len(want), i, cut(got, lo, i+40), cut(want, lo, i+40))
		}
		verifWithin(t, 20*time.Second, "close", func() { c.Close() })
	}
}

// TestVerif_C02_Keys tries every short key and long and random ones.
func TestVerif_C02_Keys(t *testing.T) {
	r := verifRand()
	srv := &vServer{}
	c := vClient(t, srv, 1)
	defer c.Close()
	valid := func(k string) error {
		for i := 0; i < len(k); i++ {
			if k[i] < 0x21 || k[i] > 0x7e {
				return ErrInvalidKeyFormat
			}
		}
		if len(k) == 0 {
			return ErrKeyEmpty
		}
		if len(k) > 250 {
			return ErrKeyTooLong
		}
		return nil
	}
	try := func(key string) {
		t.Helper()
		conn := srv.snapshot()[0]
		conn.mu.Lock()
		before := len(conn.in)
		conn.mu.Unlock()
		want := valid(key)
		long := len(key) > 250
		p := c.Pipeline()
		ok := vUniqKey()
		okFn := p.MGet(ok, MGetOptions{})
		var errs [4]error
		f1 := p.MGet(key, MGetOptions{})
		f2 := p.MSet(key, []byte("x"), MSetOptions{})
		f3 := p.MDel(key, MDelOptions{})
		_, errs[3] = p.MGetFast(key, MGetOptions{})
		_, okErr := okFn()
		_, errs[0] = f1()
		_, errs[1] = f2()
		_, errs[2] = f3()
		p.Finish()
		conn.mu.Lock()
		sent := string(conn.in[before:])
		bad := conn.bad
		conn.mu.Unlock()
		for i, e := range errs {
			rejected := errors.Is(e, ErrKeyEmpty) || errors.Is(e, ErrInvalidKeyFormat) || errors.Is(e, ErrKeyTooLong)
			if want == nil && rejected || want != nil && (!rejected || !long && e != want) {
				t.Fatalf("key %q, operation %d: got error %v, want %v", key, i, e, want)
			}
		}
		wantSent := "mg " + ok + " v\r\n"
		if want == nil {
			wantSent += "mg " + key + " v\r\nms " + key + " 1\r\nx\r\nmd " + key + "\r\nmg " + key + " v\r\n"
		}
		if sent != wantSent || bad != "" {
			t.Fatalf("key %q: sent %q, want %q %s", key, sent, wantSent, bad)
		}
		if okErr != nil && !IsServerError(okErr) {
			t.Fatalf("key %q: the other command of the pipeline failed: %v", key, okErr)
		}
	}
	verifWithin(t, 60*time.Second, "keys", func() {
		try("")
		for a := 0; a < 256; a++ {
			try(string([]byte{byte(a)}))
			try("ab" + string([]byte{byte(a)}))
			try(string([]byte{byte(a)}) + "yz")
			try(vKey(r, 100) + string([]byte{byte(a)}) + vKey(r, 20))
			try(vKey(r, 249) + string([]byte{byte(a)}))
		}
		for _, n := range []int{1, 2, 125, 249, 250, 251, 252, 256, 300, 506, 1000, 65536} {
			try(vKey(r, n))
		}
		for _, s := range []string{"\u0085", "\u00a0", "\u00e9", "\u2028", "\u3000", "\U0001f600", "\xff", "\xc3", "a\xe2\x80", "\ufffd"} {
			try(s)
			try("k" + s + "k")
		}
		end := time.Now().Add(verifBudget() / 2)
		for time.Now().Before(end) {
			b := []byte(vKey(r, 1+r.Intn(260)))
			for k := r.Intn(3); k > 0; k-- {
				b[r.Intn(len(b))] = byte(r.Intn(256))
			}
			try(string(b))
			try(string(rune(r.Intn(0x11000))) + "x")
		}
	})
}

// TestVerif_C17_Batches checks the partition of random pipelines.
func TestVerif_C17_Batches(t *testing.T) {
	r := verifRand()
	end := time.Now().Add(verifBudget())
	for round := 0; time.Now().Before(end); round++ {
		max := 1 + r.Intn(6)
		if r.Intn(3) == 0 {
			max = 1 + r.Intn(120)
		}
		n := r.Intn(5*max + 3)
		if r.Intn(3) == 0 {
			n = max * (1 + r.Intn(4))
		}
		if n == 0 {
			n = 1
		}
		var b cmdBuilder
		initCmdBuilder(&b, max)
		var encs []string
		var gets []bool
		for i := 0; i < n; i++ {
			key := vKey(r, 1+r.Intn(9))
			get := false
			switch r.Intn(5) {
			case 0:
				v := make([]byte, r.Intn(200))
				r.Read(v)
				b.addMSet(key, v, MSetOptions{})
				encs = append(encs, fmt.Sprintf("ms %s %d\r\n%s\r\n", key, len(v), v))
			case 1:
				b.addMDel(key, MDelOptions{})
				encs = append(encs, "md "+key+"\r\n")
			case 2:
				b.addVersion()
				encs = append(encs, "version\r\n")
			default:
				b.addMGet(key, MGetOptions{})
				encs = append(encs, "mg "+key+" v\r\n")
				get = true
			}
			gets = append(gets, get)
		}
		i := 0
		for c := b.finish(); c != nil; c = c.sibling {
			want := len(encs) - i
			if want > max {
				want = max
			}
			if c.cmdCount != want {
				t.Fatalf("max %d, %d commands: a batch starting at command %d holds %d, want %d", max, n, i, c.cmdCount, want)
			}
			var buf bytes.Buffer
			if err := c.writeToWriter(&buf); err != nil {
				t.Fatal(err)
			}
			text, g := "", 0
			for k := i; k < i+want; k++ {
				text += encs[k]
				if gets[k] {
					g++
				}
			}
			if buf.String() != text {
				t.Fatalf("max %d, %d commands: the batch at %d writes %q, want %q", max, n, i, buf.String(), text)
			}
			if len(c.responseBinaries) != 0 || cap(c.responseBinaries) < g || g > 0 && cap(c.responseBinaries) >= 2*g && cap(c.responseBinaries) > 8 {
				t.Fatalf("max %d, %d commands: the batch at %d has %d gets and room for %d values (length %d)", max, n, i, g, cap(c.responseBinaries), len(c.responseBinaries))
			}
			i += want
		}
		if i != n {
			t.Fatalf("max %d: %d of %d commands are in batches", max, i, n)
		}
	}
}
