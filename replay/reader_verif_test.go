package memcache

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"testing"
	"time"
)

// refNext splits off the first reply of a stream: n is its length, 0 when incomplete, -1 when it is not one.
func refNext(in []byte) (text, value []byte, hasValue bool, n int) {
	st, num, left, valAt := 1, uint64(0), uint64(0), 0
	line := func(c byte) int {
		if c == '\r' {
			return 4
		}
		return 2
	}
	for i, c := range in {
		switch st {
		case 1:
			st = line(c)
			if c == 'V' {
				st = 5
			}
		case 2:
			st = line(c)
		case 4:
			if c != '\n' {
				return nil, nil, false, -1
			}
			return in[:i+1], nil, false, i + 1
		case 5:
			st = line(c)
			if c == 'A' {
				st = 6
			}
		case 6:
			if c >= '0' && c <= '9' {
				st, num = 7, uint64(c-'0')
			} else if c != ' ' {
				return nil, nil, false, -1
			}
		case 7, 8:
			if st == 7 && c >= '0' && c <= '9' {
				if num <= 1<<30 {
					num = num*10 + uint64(c-'0')
				}
				continue
			}
			if num > 1<<30 {
				return nil, nil, false, -1
			}
			st = 8
			if c == '\r' {
				st = 9
			}
		case 9:
			if c != '\n' {
				return nil, nil, false, -1
			}
			st, left, valAt = 10, num+2, i+1
		case 10:
			left--
			if left == 0 {
				return in[:valAt], in[valAt : valAt+int(num)], true, i + 1
			}
		}
	}
	return nil, nil, false, 0
}

type verifReply struct {
	text, value []byte
	hasValue    bool
}

// feedReader gives the stream to a reader in pieces; it returns the replies and whether the reader reported an error.
func feedReader(stream []byte, r *rand.Rand) (out []verifReply, failed bool) {
	p := newResponseReader()
	var cmd *commandListData
	start := func() {
		cmd = &commandListData{}
		p.setCurrentCommand(cmd)
	}
	start()
	buf := make([]byte, 4096)
	pos := 0
	for {
		if p.readNextData() {
			if p.hasError() != nil {
				return out, true
			}
			x := verifReply{text: append([]byte(nil), cmd.responseData...)}
			if len(cmd.responseBinaries) > 0 {
				x.hasValue = true
				x.value = append([]byte(nil), cmd.responseBinaries[0]...)
			}
			if len(cmd.responseBinaries) > 1 {
				panic("two values in one reply")
			}
			out = append(out, x)
			start()
			continue
		}
		if pos >= len(stream) {
			return out, false
		}
		n := 1
		switch r.Intn(3) {
		case 0:
			n += r.Intn(4)
		case 1:
			n += r.Intn(40)
		case 2:
			n += r.Intn(len(buf) - 1)
		}
		n = copy(buf[:verifMin(n, len(buf))], stream[pos:])
		pos += n
		p.recv(buf[:n])
		for i := n; i < len(buf); i++ { // what the next read may overwrite
			buf[i] = byte(r.Intn(256))
		}
	}
}

func refAll(stream []byte) (out []verifReply, failed bool) {
	for {
		t, v, h, n := refNext(stream)
		if n < 0 {
			return out, true
		}
		if n == 0 {
			return out, false
		}
		out = append(out, verifReply{text: t, value: v, hasValue: h})
		stream = stream[n:]
	}
}

func compareReader(t *testing.T, stream []byte, r *rand.Rand, what string) {
	t.Helper()
	var got []verifReply
	var gotErr bool
	verifWithin(t, 5*time.Second, fmt.Sprintf("reading %q", stream[:verifMin(len(stream), 400)]), func() { got, gotErr = feedReader(stream, r) })
	want, wantErr := refAll(stream)
	if len(got) != len(want) || gotErr != wantErr {
		t.Fatalf("%s: %d replies, error %v; want %d, %v: stream %q", what, len(got), gotErr, len(want), wantErr, stream[:verifMin(len(stream), 600)])
	}
	for i := range got {
		if !bytes.Equal(got[i].text, want[i].text) || !bytes.Equal(got[i].value, want[i].value) || got[i].hasValue != want[i].hasValue {
			t.Fatalf("%s: reply %d is %q %q; want %q %q: stream %q", what, i, got[i].text, got[i].value, want[i].text, want[i].value, stream[:verifMin(len(stream), 600)])
		}
	}
}

func randValue(r *rand.Rand) []byte {
	n := []int{0, 1, 2, 3, r.Intn(20), r.Intn(200), r.Intn(9000)}[r.Intn(7)]
	v := make([]byte, n)
	for i := range v {
		v[i] = "\r\nVAEN 01"[r.Intn(9)]
		if r.Intn(3) == 0 {
			v[i] = byte(r.Intn(256))
		}
	}
	return v
}

func randReply(r *rand.Rand) string {
	flags := []string{"", " W", " c123 t-1", " s5 Z", " Oq123", " \n", " k\x00\xff"}[r.Intn(7)]
	switch r.Intn(6) {
	case 0, 1:
		v := randValue(r)
		return fmt.Sprintf("VA%s%d%s\r\n%s\r\n", strings.Repeat(" ", 1+r.Intn(2)*r.Intn(3)), len(v), flags, v)
	case 2:
		return []string{"V\r\n", "VERSION 1.6\r\n", "VXA 12\r\n", "\r\n", "V 5\r\n", "Va 3\r\n", "VB 2 W\r\n", "vA 1\r\n"}[r.Intn(8)]
	default:
		return []string{"HD", "EN", "NS", "MN", "OK", "SERVER_ERROR out of memory", "CLIENT_ERROR bad"}[r.Intn(7)] + flags + "\r\n"
	}
}

func TestVerif_C03_Framing(t *testing.T) {
	r := verifRand()
	end := time.Now().Add(6 * time.Second)
	for time.Now().Before(end) {
		var s strings.Builder
		for i := r.Intn(12); i >= 0; i-- {
			s.WriteString(randReply(r))
		}
		compareReader(t, []byte(s.String()), r, "well-formed stream")
		compareReader(t, hostile(r), r, "arbitrary stream")
	}
}

func hostile(r *rand.Rand) []byte {
	var s []byte
	for i := r.Intn(5); i > 0; i-- {
		s = append(s, randReply(r)...)
	}
	switch r.Intn(5) {
	case 0:
		s = append(s, fmt.Sprintf("VA %d%s\r\nabc\r\n", []uint64{1 << 30, 1<<30 + 1, 1 << 40, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<64 - 2, 1<<31 + 5}[r.Intn(8)], []string{"", "0", "0000000000", "5"}[r.Intn(4)])...)
		if r.Intn(4) != 0 { // 2^30 would be allocated
			s = bytes.ReplaceAll(s, []byte("VA 1073741824\r"), []byte("VA 1073741825\r"))
		}
	case 1:
		s = append(s, []string{"VA \r\n", "VA x\r\n", "VA -1\r\n", "VA+5\r\n", "HD\rHD\r\n", "VA 3\r\r\nabc\r\n", "VA 3 a\rb\r\nabc\r\n", "VA2\r\nab\r\n"}[r.Intn(8)]...)
	case 2:
		for i := r.Intn(60); i > 0; i-- {
			s = append(s, "VA 019\r\n\r\nHD"[r.Intn(12)])
		}
	case 3:
		if len(s) > 0 {
			s[r.Intn(len(s))] = byte(r.Intn(256))
		}
	case 4:
		if len(s) > 0 {
			s = s[:r.Intn(len(s))]
		}
	}
	return s
}

func TestVerif_C05_Reader(t *testing.T) {
	r := verifRand()
	end := time.Now().Add(6 * time.Second)
	for time.Now().Before(end) {
		compareReader(t, hostile(r), r, "arbitrary stream")
	}
}
