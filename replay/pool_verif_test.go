package memcache

import (
	"runtime"
	"testing"
)

func TestVerif_C16_Bytes(t *testing.T) {
	r := verifRand()
	type held struct {
		b   []byte
		tag byte
	}
	var out []held
	spans := func(b []byte) (uintptr, uintptr) {
		p := sliceStart(b)
		return p, p + uintptr(cap(b))
	}
	check := func(h held, what string) {
		for i, c := range h.b {
			if c != h.tag {
				t.Fatalf("%s: buffer of %d bytes was overwritten at %d: it is shared with another owner", what, len(h.b), i)
			}
		}
	}
	release := func(i int) {
		check(out[i], "release")
		b := out[i].b
		out[i] = out[len(out)-1]
		out = out[:len(out)-1]
		ReleaseGetResponseData(b)
	}
	for n := 0; n < 60000; n++ {
		switch {
		case len(out) > 40 || (len(out) > 0 && r.Intn(2) == 0):
			release(r.Intn(len(out)))
		case r.Intn(8) == 0:
			// a foreign buffer of arbitrary capacity given to the pool: must never come back as a larger one
			c := verifSizes(r)
			if c < 0 {
				c = 0
			}
			b := make([]byte, c)
			ReleaseGetResponseData(b[:r.Intn(c+1)])
		default:
			size := verifSizes(r)
			if size < 0 {
				size = 0
			}
			b := getByteSlice(uint64(size))
			if len(b) != size {
				t.Fatalf("getByteSlice(%d) has length %d", size, len(b))
			}
			if size == 0 && b != nil {
				t.Fatalf("getByteSlice(0) is not nil")
			}
			full := b[:cap(b)]
			lo, hi := spans(b)
			for _, o := range out {
				l2, h2 := spans(o.b)
				if size > 0 && len(o.b) > 0 && lo < h2 && l2 < hi {
					t.Fatalf("getByteSlice(%d) overlaps a buffer of %d bytes that is still in use", size, len(o.b))
				}
			}
			tag := byte(n)
			for i := range full {
				full[i] = tag
			}
			out = append(out, held{b, tag})
		}
		if n%5000 == 0 {
			runtime.GC()
		}
	}
	for len(out) > 0 {
		release(len(out) - 1)
	}
}

func TestVerif_C16_Binaries(t *testing.T) {
	r := verifRand()
	var out [][][]byte
	for n := 0; n < 40000; n++ {
		switch {
		case len(out) > 30 || (len(out) > 0 && r.Intn(2) == 0):
			i := r.Intn(len(out))
			b := out[i]
			out[i] = out[len(out)-1]
			out = out[:len(out)-1]
			putResponseBinaries(b)
		case r.Intn(6) == 0:
			putResponseBinaries(make([][]byte, r.Intn(3), 3+r.Intn(700)))
		default:
			size := r.Intn(600)
			if r.Intn(2) == 0 {
				size = r.Intn(20)
			}
			b := getResponseBinaries(uint32(size))
			if len(b) != 0 || cap(b) < size {
				t.Fatalf("getResponseBinaries(%d): len %d cap %d", size, len(b), cap(b))
			}
			full := b[:cap(b)]
			for i := range full {
				full[i] = make([]byte, 1)
			}
			for _, o := range out {
				if cap(o) > 0 && cap(b) > 0 && sliceStart(o) == sliceStart(b) {
					t.Fatalf("getResponseBinaries(%d) returned a list still in use", size)
				}
			}
			out = append(out, b)
		}
		if n%5000 == 0 {
			runtime.GC()
		}
	}
}

func TestVerif_C16_Commands(t *testing.T) {
	r := verifRand()
	for _, size := range []int{1, 2, 3, 7, 64, 100, 128} {
		p := newPipelineCommandListPool(WithMaxCommandsPerBatch(size))
		for n := 0; n < 500; n++ {
			l := p.getCommandList()
			if len(l) != 0 || cap(l) < size {
				t.Fatalf("command list: len %d cap %d, batch size %d", len(l), cap(l), size)
			}
			for _, c := range l[:cap(l)] {
				if c != nil {
					t.Fatalf("command list from the pool holds an old command")
				}
			}
			k := r.Intn(size + 1)
			for i := 0; i < k; i++ {
				c := getPipelineCmdFromPool()
				if c.resp != nil || c.err != nil || c.isRead || c.cmdType != 0 || c.getResp.Data != nil {
					t.Fatalf("pipelineCmd from the pool is not cleared: %+v", c)
				}
				c.isRead, c.cmdType = true, 3
				c.getResp.Data = []byte("x")
				c.err = ErrConnClosed
				l = append(l, c)
			}
			cs := append([]*pipelineCmd(nil), l...)
			if r.Intn(5) == 0 {
				p.putCommandList(make([]*pipelineCmd, k, k+r.Intn(size+2)))
			}
			if cap(l) > 0 {
				p.putCommandList(l)
			}
			for _, c := range cs {
				putPipelineCmdToPool(c)
			}
		}
	}
}
