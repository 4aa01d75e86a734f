package memcache

import (
	"errors"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// TestVerif_C07_Ring runs a writer and a receiver over small rings.
func TestVerif_C07_Ring(t *testing.T) {
	r := verifRand()
	end := time.Now().Add(verifBudget())
	for round := 0; time.Now().Before(end); round++ {
		var b recvBuffer
		initRecvBuffer(&b, r.Intn(4))
		total := 1 + r.Intn(400)
		all := make([]*commandListData, total)
		for i := range all {
			all[i] = &commandListData{cmdCount: i}
		}
		var sizes []int
		for n := 0; n < total; {
			k := 1 + r.Intn(12)
			if n+k > total {
				k = total - n
			}
			sizes = append(sizes, k)
			n += k
		}
		rd := 1 + r.Intn(20)
		yield := r.Intn(3)
		verifWithin(t, 20*time.Second, "ring", func() {
			go func() {
				n := 0
				for _, k := range sizes {
					tmp := append([]*commandListData(nil), all[n:n+k]...)
					rem, closed := b.push(tmp)
					if closed || len(rem) != 0 {
						panic("push reported a closed ring")
					}
					for i := range tmp {
						tmp[i] = nil // the writer reuses its slice
					}
					n += k
					if yield == 1 {
						runtime.Gosched()
					}
				}
				b.closeBuffer()
			}()
			got := 0
			buf := make([]*commandListData, rd)
			for {
				n := b.read(buf)
				if n == 0 {
					break
				}
				for _, c := range buf[:n] {
					if c == nil {
						panic(fmt.Sprintf("an empty slot was handed out as batch %d", got))
					}
					if got >= total || c != all[got] {
						panic(fmt.Sprintf("batch %d was handed out in place %d of %d", c.cmdCount, got, total))
					}
					got++
				}
				if yield == 2 {
					runtime.Gosched()
				}
			}
			if got != total {
				panic(fmt.Sprintf("%d of %d batches were delivered", got, total))
			}
		})
	}
}

// TestVerif_C07_Sequential fills and drains step by step.
func TestVerif_C07_Sequential(t *testing.T) {
	r := verifRand()
	for round := 0; round < 2000; round++ {
		var b recvBuffer
		log := r.Intn(4)
		initRecvBuffer(&b, log)
		var fifo []*commandListData
		verifWithin(t, 10*time.Second, "sequential ring", func() {
			for step := 0; step < 60; step++ {
				if free := 1<<log - len(fifo); free > 0 && r.Intn(2) == 0 {
					var in []*commandListData
					for k := 1 + r.Intn(free); k > 0; k-- {
						in = append(in, &commandListData{})
					}
					fifo = append(fifo, in...)
					if rem, closed := b.push(in); closed || len(rem) > 0 {
						panic("push into an open ring failed")
					}
				} else if len(fifo) > 0 {
					buf := make([]*commandListData, 1+r.Intn(6))
					n := b.read(buf)
					if n <= 0 || n > len(buf) || n > len(fifo) {
						panic(fmt.Sprintf("read returned %d with %d waiting", n, len(fifo)))
					}
					for i := 0; i < n; i++ {
						if buf[i] != fifo[i] {
							panic("wrong batch")
						}
					}
					fifo = fifo[n:]
				}
			}
			b.closeBuffer()
			x := &commandListData{}
			if rem, closed := b.push([]*commandListData{x}); !closed || len(rem) != 1 || rem[0] != x {
				panic("push into a closed ring was not refused")
			}
		})
	}
}

// TestVerif_C08_SendBuffer has publishers, a drainer and a close race.
func TestVerif_C08_SendBuffer(t *testing.T) {
	r := verifRand()
	end := time.Now().Add(verifBudget() / 2)
	for round := 0; time.Now().Before(end); round++ {
		var b sendBuffer
		initSendBuffer(&b)
		writers, per := 1+r.Intn(4), 1+r.Intn(50)
		closeAfter := int64(-1)
		if r.Intn(2) == 0 {
			closeAfter = int64(r.Intn(writers * per))
		}
		waiting := r.Intn(3) > 0
		verifWithin(t, 20*time.Second, "send buffer", func() {
			var wg sync.WaitGroup
			var accepted atomic.Int64
			acc := make([][]bool, writers)
			for w := 0; w < writers; w++ {
				acc[w] = make([]bool, per)
				wg.Add(1)
				go func(w int) {
					defer wg.Done()
					for i := 0; i < per; i++ {
						c := &commandListData{cmdCount: w*1000 + i}
						if i%3 == 0 {
							c.link = &commandListData{cmdCount: -1} // stale
						}
						if !b.push(c) {
							acc[w][i] = true
						}
						if accepted.Add(1) == closeAfter {
							b.close()
						}
					}
				}(w)
			}
			go func() { wg.Wait(); b.close() }()
			next := make([]int, writers)
			for {
				list, closed := b.popAll(waiting)
				for c := list; c != nil; c = c.link {
					if c.cmdCount < 0 {
						panic("a batch that was never pushed was drained")
					}
					w, i := c.cmdCount/1000, c.cmdCount%1000
					if i < next[w] {
						panic(fmt.Sprintf("pipeline %d of publisher %d was drained twice or out of order", i, w))
					}
					next[w] = i + 1
					acc2 := &acc[w][i]
					_ = acc2
					c.requestData = []byte{1}
					vSeen.Store(c.cmdCount, true)
				}
				if closed && list == nil {
					break
				}
				if waiting && list == nil && !closed {
					panic("a waiting drain returned nothing although the queue is open")
				}
				runtime.Gosched()
			}
			wg.Wait()
			if l, _ := b.popAll(false); l != nil {
				panic("a pipeline was accepted after the last drain")
			}
			for w := range acc {
				for i, a := range acc[w] {
					_, seen := vSeen.LoadAndDelete(w*1000 + i)
					if a != seen {
						panic(fmt.Sprintf("pipeline %d of publisher %d: accepted %v, drained %v", i, w, a, seen))
					}
				}
			}
		})
	}
}

var vSeen sync.Map

// TestVerif_C08_Refused publishes pipelines of several batches around a shutdown.
func TestVerif_C08_Refused(t *testing.T) {
	r := verifRand()
	end := time.Now().Add(verifBudget() / 2)
	for round := 0; time.Now().Before(end); round++ {
		srv := &vServer{}
		c := vClient(t, srv, 1, WithMaxCommandsPerBatch(1+r.Intn(3)))
		after := r.Intn(2) == 0
		verifWithin(t, 20*time.Second, "publishing around Close", func() {
			if after {
				c.Close()
			} else {
				go c.Close()
			}
			var wg sync.WaitGroup
			for g := 0; g < 3; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					p := c.Pipeline()
					var fns []func() error
					for i := 0; i < 8; i++ {
						fns = append(fns, p.FlushAll())
					}
					p.Finish()
					failed := 0
					for _, f := range fns {
						if err := f(); err != nil {
							failed++
							if after && !errors.Is(err, ErrConnClosed) {
								panic(fmt.Sprintf("after shutdown: %v", err))
							}
						}
					}
					if after && failed != len(fns) {
						panic("a pipeline succeeded after shutdown")
					}
				}()
			}
			wg.Wait()
		})
	}
}
