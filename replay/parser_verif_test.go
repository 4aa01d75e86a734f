package memcache

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"testing"
	"time"
)

// ---- what a reply says, decoded by a separate reading of the protocol

type refReply struct {
	resp     interface{}
	err      error
	anyError bool // any error will do
	consumed int  // -1: not checked
	binaries int  // number of values taken
}

func refLineEnd(data []byte, from int) int {
	if from > len(data) {
		return -1
	}
	i := bytes.Index(data[from:], []byte("\r\n"))
	if i < 0 {
		return -1
	}
	return from + i + 2
}

// refFlags reads the flags of a reply; the line ends with the first CR LF that starts at a flag position
func refFlags(data []byte, i int) (flags MGetFlags, cas uint64, end int) {
	for i+1 < len(data) {
		switch {
		case data[i] == 'W':
			flags |= 1
		case data[i] == 'X':
			flags |= 2
		case data[i] == 'Z':
			flags |= 4
		case data[i] == 'c':
			n, next := refNumber(data, i+1)
			if next < 0 {
				return 0, 0, -1
			}
			cas, i = n, next
			continue
		case data[i] == '\r' && data[i+1] == '\n':
			return flags, cas, i + 2
		}
		i++
	}
	return 0, 0, -1
}

func refNumber(data []byte, i int) (uint64, int) {
	for i < len(data) && (data[i] < '0' || data[i] > '9') {
		if data[i] == '\r' {
			return 0, -1
		}
		i++
	}
	if i >= len(data) {
		return 0, -1
	}
	n := uint64(0)
	for i < len(data) && data[i] >= '0' && data[i] <= '9' {
		n = n*10 + uint64(data[i]-'0')
		i++
	}
	return n, i
}

func refError(data []byte) (refReply, bool) {
	for _, pfx := range []string{"SERVER_ERROR", "CLIENT_ERROR"} {
		if len(data) <= len(pfx) || string(data[:len(pfx)]) != pfx {
			continue
		}
		e := refLineEnd(data, len(pfx))
		if e < 0 {
			return refReply{anyError: true, consumed: -1}, true
		}
		msg := ""
		if e-2 > len(pfx)+1 {
			msg = string(data[len(pfx)+1 : e-2])
		}
		if pfx[0] == 'S' {
			return refReply{err: ErrServerError{Message: msg}, consumed: e}, true
		}
		return refReply{err: ErrClientError{Message: msg}, consumed: e}, true
	}
	return refReply{}, false
}

func refDecode(kind string, data []byte, bins [][]byte) refReply {
	bad := refReply{anyError: true, consumed: -1}
	if r, ok := refError(data); ok {
		return r
	}
	two := ""
	if len(data) >= 2 {
		two = string(data[:2])
	}
	simple := func(min int, m map[string]interface{}) refReply {
		v, ok := m[two]
		e := refLineEnd(data, 2)
		if !ok || len(data) < min || e < 0 {
			return bad
		}
		return refReply{resp: v, consumed: e}
	}
	switch kind {
	case "mset":
		return simple(4, map[string]interface{}{"HD": MSetResponse{MSetResponseTypeHD}, "NS": MSetResponse{MSetResponseTypeNS}, "EX": MSetResponse{MSetResponseTypeEX}, "NF": MSetResponse{MSetResponseTypeNF}})
	case "mdel":
		return simple(4, map[string]interface{}{"HD": MDelResponse{MDelResponseTypeHD}, "EX": MDelResponse{MDelResponseTypeEX}, "NF": MDelResponse{MDelResponseTypeNF}})
	case "flush":
		return simple(2, map[string]interface{}{"OK": nil})
	case "version":
		e := refLineEnd(data, 7)
		if len(data) < 7 || string(data[:7]) != "VERSION" || e < 0 {
			return bad
		}
		return refReply{resp: VersionResponse{Version: strings.TrimSpace(string(data[7 : e-2]))}, consumed: e}
	}
	switch {
	case len(data) < 4:
		return bad
	case two == "EN":
		return simple(4, map[string]interface{}{"EN": MGetResponse{Type: MGetResponseTypeEN}})
	case two == "HD":
		f, c, e := refFlags(data, 2)
		if e < 0 {
			return bad
		}
		return refReply{resp: MGetResponse{Type: MGetResponseTypeHD, Flags: f, CAS: c}, consumed: e}
	case two == "VA":
		_, i := refNumber(data, 3)
		if i < 0 {
			return bad
		}
		f, c, e := refFlags(data, i)
		if e < 0 || len(bins) == 0 {
			return bad
		}
		return refReply{resp: MGetResponse{Type: MGetResponseTypeVA, Flags: f, CAS: c, Data: bins[0]}, consumed: e, binaries: 1}
	}
	return bad
}

func decodeReal(kind string, p *parser) (resp interface{}, err error) {
	switch kind {
	case "mget":
		return p.readMGet()
	case "mset":
		return p.readMSet()
	case "mdel":
		return p.readMDel()
	case "version":
		return p.readVersion()
	}
	return nil, p.readFlushAll()
}

func compareDecode(kind string, data []byte, bins [][]byte) (problem string) {
	data = append(make([]byte, 0, len(data)), data...)
	defer func() {
		if e := recover(); e != nil {
			problem = fmt.Sprintf("decoding %s reply %q: panic: %v", kind, data, e)
		}
	}()
	var p parser
	initParser(&p, data, bins)
	resp, err := decodeReal(kind, &p)
	want := refDecode(kind, data, bins)
	if want.err != nil || want.anyError {
		if err == nil {
			return fmt.Sprintf("decoding %s reply %q: got success %+v, expected an error", kind, data, resp)
		}
		if want.err != nil && !reflect.DeepEqual(err, want.err) {
			return fmt.Sprintf("decoding %s reply %q: got error %#v, expected %#v", kind, data, err, want.err)
		}
		if want.anyError && (IsServerError(err) || reflect.TypeOf(err) == reflect.TypeOf(ErrClientError{})) {
			return fmt.Sprintf("decoding %s reply %q: reported the server's error %#v, which it did not send", kind, data, err)
		}
	} else {
		if err != nil {
			return fmt.Sprintf("decoding %s reply %q: got error %v, expected %+v", kind, data, err, want.resp)
		}
		if want.resp != nil && !reflect.DeepEqual(resp, want.resp) {
			return fmt.Sprintf("decoding %s reply %q: got %+v, expected %+v", kind, data, resp, want.resp)
		}
	}
	if want.consumed >= 0 && len(data)-len(p.data) != want.consumed {
		return fmt.Sprintf("decoding %s reply %q: consumed %d bytes, expected %d", kind, data, len(data)-len(p.data), want.consumed)
	}
	if len(p.data) > len(data) || !bytes.Equal(p.data, data[len(data)-len(p.data):]) {
		return fmt.Sprintf("decoding %s reply %q: left over %q", kind, data, p.data)
	}
	if len(bins)-len(p.binaries) != want.binaries || (len(p.binaries) > 0 && &p.binaries[0] != &bins[len(bins)-len(p.binaries)]) {
		return fmt.Sprintf("decoding %s reply %q: %d of %d values left, expected %d taken", kind, data, len(p.binaries), len(bins), want.binaries)
	}
	return ""
}

var verifReplyKinds = []string{"mget", "mset", "mdel", "version", "flush"}

func randFlagsText(r *rand.Rand) string {
	s := ""
	for n := r.Intn(5); n > 0; n-- {
		switch r.Intn(9) {
		case 0:
			s += " W"
		case 1:
			s += " X"
		case 2:
			s += " Z"
		case 3:
			s += fmt.Sprintf(" c%d", r.Uint64()>>uint(r.Intn(64)))
		case 4:
			s += fmt.Sprintf(" t%d", r.Int63n(1<<uint(1+r.Intn(40))))
		case 5:
			s += " c18446744073709551615"
		case 6:
			s += "WXZ"[r.Intn(3):][:1]
		case 7:
			s += " Oab"
		case 8:
			s += fmt.Sprintf(" c%d W", r.Intn(100))
		}
	}
	return s
}

func randReplyText(r *rand.Rand) string {
	const junk = "\r\n \t0189cWXZabHDENVAOKSC_"
	rnd := func(n int) string {
		b := make([]byte, r.Intn(n+1))
		for i := range b {
			if r.Intn(8) == 0 {
				b[i] = byte(r.Intn(256))
			} else {
				b[i] = junk[r.Intn(len(junk))]
			}
		}
		return string(b)
	}
	var s string
	switch r.Intn(12) {
	case 0:
		s = "HD" + randFlagsText(r) + "\r\n"
	case 1:
		s = fmt.Sprintf("VA %d%s\r\n", r.Intn(2000), randFlagsText(r))
	case 2:
		s = "EN\r\n"
	case 3:
		s = []string{"HD", "NS", "EX", "NF", "OK"}[r.Intn(5)] + "\r\n"
	case 4:
		s = []string{"SERVER_ERROR", "CLIENT_ERROR"}[r.Intn(2)] + []string{" out of memory", "", " ", " x", "  two"}[r.Intn(5)] + "\r\n"
	case 5:
		s = []string{"SERVER_ERROR", "CLIENT_ERROR", "SERVER_ERRO", "SERVERXERROR", "CLIENT_ERROS"}[r.Intn(5)] + rnd(6) + "\r\n"
	case 6:
		s = "VERSION" + []string{" 1.6.9", " 1.6.9-beta+x", "", "  a b ", " 1"}[r.Intn(5)] + "\r\n"
	case 7:
		s = "VERSION" + rnd(5) + "\r\n"
	case 8:
		s = []string{"HD", "VA", "VA ", "EN", "OK", "NS"}[r.Intn(6)] + rnd(12) + "\r\n"
	case 9:
		s = []string{"HD", "VA", "VA 5", "EN", "OK"}[r.Intn(5)] + rnd(12)
	case 10:
		s = rnd(6)
	default:
		s = []string{"H", "HD", "HD\r", "V", "VA", "VA ", "VA 5", "O", "OK\r", "E", "", "\r\n", "SERVER_ERROR", "CLIENT_ERROR\r", "VERSION", "VERSION\r"}[r.Intn(16)]
	}
	if r.Intn(6) == 0 && len(s) > 0 { // one damaged byte
		b := []byte(s)
		b[r.Intn(len(b))] = junk[r.Intn(len(junk))]
		s = string(b)
	}
	if r.Intn(3) == 0 { // another reply behind it
		s += []string{"HD W c12\r\n", "EN\r\n", "VA 3 c7\r\n", "SERVER_ERROR x\r\n", "3 W\r\n", "\n"}[r.Intn(6)]
	}
	return s
}

func runDecode(t *testing.T, judge func(string) bool) {
	r := verifRand()
	stop := time.Now().Add(verifBudget())
	for n := 0; time.Now().Before(stop); n++ {
		text := randReplyText(r)
		var bins [][]byte
		for k := r.Intn(3); k > 0; k-- {
			bins = append(bins, []byte(fmt.Sprintf("value%d", k)))
		}
		for _, kind := range verifReplyKinds {
			done := make(chan string, 1)
			go func() { done <- compareDecode(kind, []byte(text), bins) }()
			select {
			case msg := <-done:
				if msg != "" && judge(msg) {
					t.Fatal(msg)
				}
			case <-time.After(3 * time.Second):
				t.Fatalf("decoding %s reply %q does not end", kind, text)
			}
		}
	}
}

func TestVerif_C04_Decode(t *testing.T) {
	runDecode(t, func(string) bool { return true })
}

func TestVerif_C05_Decode(t *testing.T) {
	runDecode(t, func(msg string) bool { return strings.Contains(msg, "panic:") })
}
