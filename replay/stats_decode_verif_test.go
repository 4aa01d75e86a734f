package stats

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/url"
	"os"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/QuangTung97/go-memcache/memcache/netconn"
)

type nullWriter struct{}

func (nullWriter) Write(p []byte) (int, error) { return len(p), nil }
func (nullWriter) Flush() error                { return nil }

type pieceReader struct {
	data []byte
	n    int
	err  error
}

func (r *pieceReader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		if r.err != nil {
			return 0, r.err
		}
		return 0, io.EOF
	}
	n := len(p)
	if r.n > 0 && n > r.n {
		n = r.n
	}
	n = copy(p[:n], r.data)
	r.data = r.data[n:]
	return n, nil
}
func (r *pieceReader) Close() error { return nil }

func clientOf(data string, n int, err error) *Client {
	rd := &pieceReader{data: []byte(data), n: n, err: err}
	sc := bufio.NewScanner(rd)
	return &Client{nc: netconn.NetConn{Writer: nullWriter{}, Reader: rd, Closer: rd}, scanner: sc, parser: newStatsParser(sc)}
}

type fieldOf struct {
	name  string
	field string
	bits  int
}

var slabFields = []fieldOf{{"chunk_size", "ChunkSize", 32}, {"chunks_per_page", "ChunksPerPage", 32}, {"total_pages", "TotalPages", 32},
	{"total_chunks", "TotalChunks", 64}, {"used_chunks", "UsedChunks", 64}}
var itemFields []fieldOf

func init() {
	for _, s := range strings.Fields("number:Number number_hot:NumberHot number_warm:NumberWarm number_cold:NumberCold age_hot:AgeHot age_warm:AgeWarm age:Age mem_requested:MemRequested evicted:Evicted evicted_nonzero:EvictedNonZero evicted_time:EvictedTime outofmemory:OutOfMemory tailrepairs:TailRepairs reclaimed:Reclaimed expired_unfetched:ExpiredUnfetched evicted_unfetched:EvictedUnfetched evicted_active:EvictedActive crawler_reclaimed:CrawlerReclaimed crawler_items_checked:CrawlerItemsChecked lrutail_reflocked:LRUTailRefLocked moves_to_cold:MovesToCold moves_to_warm:MovesToWarm moves_within_lru:MovesWithinLRU direct_reclaims:DirectReclaims hits_to_hot:HitsToHot hits_to_warm:HitsToWarm hits_to_cold:HitsToCold hits_to_temp:HitsToTemp") {
		i := strings.Index(s, ":")
		itemFields = append(itemFields, fieldOf{s[:i], s[i+1:], 64})
	}
}

type genLine struct {
	key, val string
}

func num(r *rand.Rand, bits int) string {
	switch r.Intn(8) {
	case 0:
		return strconv.FormatUint(^uint64(0)>>uint(64-bits), 10)
	case 1:
		return "0"
	case 2:
		return strconv.FormatUint(r.Uint64()>>uint(64-bits), 10)
	case 3:
		if r.Intn(6) == 0 {
			return []string{"x", "-1", "1.5", "18446744073709551616", "4294967296", "1a", "+1", "0x10"}[r.Intn(8)]
		}
	}
	return strconv.Itoa(r.Intn(1000))
}

// stats of one kind: what has to come out of the lines
func expect(kind string, lines []genLine) (top map[string]uint64, slabs map[uint32]map[string]uint64, bad bool) {
	top, slabs = map[string]uint64{}, map[uint32]map[string]uint64{}
	parse := func(s string, bits int) uint64 {
		v, err := strconv.ParseUint(s, 10, bits)
		if err != nil {
			bad = true
		}
		return v
	}
	for _, l := range lines {
		if bad {
			return
		}
		switch kind {
		case "general":
			if l.key == "pid" || l.key == "uptime" {
				top[l.key] = parse(l.val, 64)
			}
		default:
			fs, ci, ni := slabFields, 0, 1
			if kind == "items" {
				fs, ci, ni = itemFields, 1, 2
			} else if l.key == "active_slabs" {
				top[l.key] = parse(l.val, 32)
				continue
			} else if l.key == "total_malloced" {
				top[l.key] = parse(l.val, 64)
				continue
			}
			p := strings.Split(l.key, ":")
			if len(p) <= ni {
				bad = true
				continue
			}
			c := uint32(parse(p[ci], 32))
			for _, f := range fs {
				if f.name == p[ni] && !bad {
					v := parse(l.val, f.bits)
					if slabs[c] == nil {
						slabs[c] = map[string]uint64{}
					}
					slabs[c][f.field] = v
				}
			}
		}
	}
	return
}

func checkSlabs(t *testing.T, in string, ids []uint32, got reflect.Value, want map[uint32]map[string]uint64) {
	seen := map[uint32]bool{}
	for _, id := range ids {
		if seen[id] {
			t.Fatalf("class %d listed twice for\n%s", id, in)
		}
		seen[id] = true
		if want[id] == nil {
			t.Fatalf("class %d listed but not in\n%s", id, in)
		}
	}
	if len(seen) != len(want) || got.Len() != len(want) {
		t.Fatalf("classes %v, want %d of them, for\n%s", ids, len(want), in)
	}
	for c, fs := range want {
		v := got.MapIndex(reflect.ValueOf(c))
		if !v.IsValid() {
			t.Fatalf("class %d missing for\n%s", c, in)
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).Uint() != fs[v.Type().Field(i).Name] {
				t.Fatalf("class %d: %s is %d, want %d, for\n%s", c, v.Type().Field(i).Name, v.Field(i).Uint(), fs[v.Type().Field(i).Name], in)
			}
		}
	}
}

func TestVerif_C20_Stats(t *testing.T) {
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	for i := int64(0); i < 6000; i++ {
		r := rand.New(rand.NewSource(seed*100000 + i))
		kind := []string{"general", "slabs", "items"}[r.Intn(3)]
		var ls []genLine
		for n := r.Intn(12); n > 0; n-- {
			var k string
			bits := 64
			switch {
			case kind == "general":
				k = []string{"pid", "uptime", "pidx", "version", "PID", "time"}[r.Intn(6)]
			case kind == "slabs" && r.Intn(5) == 0:
				k = []string{"active_slabs", "total_malloced"}[r.Intn(2)]
				if k == "active_slabs" {
					bits = 32
				}
			default:
				fs := slabFields
				if kind == "items" {
					fs = itemFields
				}
				f := fs[r.Intn(len(fs))]
				bits = f.bits
				nm := f.name
				if r.Intn(6) == 0 {
					nm += "_x"
				}
				cls := strconv.Itoa(1 + r.Intn(4))
				switch r.Intn(60) {
				case 0:
					cls = "x"
				case 1:
					cls = "4294967296"
				}
				k = cls + ":" + nm
				if kind == "items" {
					k = "items:" + k
				}
				if r.Intn(60) == 0 {
					k = nm
				}
			}
			ls = append(ls, genLine{k, num(r, bits)})
		}
		var b strings.Builder
		cut := r.Intn(6) == 0
		badLine := r.Intn(10) == 0
		fault := ""
		for j, l := range ls {
			if badLine && j == len(ls)/2 {
				b.WriteString([]string{"\r\n", "STAT\r\n", "STAT x\r\n", "STATS a 1\r\n", "  \r\n", "ERROR\r\n"}[r.Intn(6)])
				fault = "line"
			}
			fmt.Fprintf(&b, "STAT %s %s\r\n", l.key, l.val)
		}
		var rerr error
		if cut {
			fault += "cut"
			if r.Intn(2) == 0 {
				rerr = errors.New("broken")
			}
		} else {
			b.WriteString("END\r\n")
		}
		top, slabs, bad := expect(kind, ls)
		c := clientOf(b.String(), r.Intn(9), rerr)
		var err error
		var gtop map[string]uint64
		var ids []uint32
		var m reflect.Value
		switch kind {
		case "general":
			g, e := c.GetGeneralStats()
			err, gtop = e, map[string]uint64{"pid": g.PID, "uptime": g.Uptime}
		case "slabs":
			g, e := c.GetSlabsStats()
			err, gtop = e, map[string]uint64{"active_slabs": uint64(g.ActiveSlabs), "total_malloced": g.TotalMalloced}
			ids, m = g.SlabIDs, reflect.ValueOf(g.Slabs)
		default:
			g, e := c.GetSlabItemsStats()
			err, ids, m = e, g.SlabIDs, reflect.ValueOf(g.Slabs)
		}
		if bad || fault != "" {
			if err == nil {
				t.Fatalf("seed %d: %s: no error (bad number %v, fault %q) for\n%s", i, kind, bad, fault, b.String())
			}
			continue
		}
		if err != nil {
			t.Fatalf("seed %d: %s: error %v for\n%s", i, kind, err, b.String())
		}
		for k, v := range gtop {
			if top[k] != v {
				t.Fatalf("seed %d: %s is %d, want %d, for\n%s", i, k, v, top[k], b.String())
			}
		}
		if kind != "general" {
			checkSlabs(t, b.String(), ids, m, slabs)
		}
	}
}

func TestVerif_C20_Dump(t *testing.T) {
	for i := int64(0); i < 4000; i++ {
		r := rand.New(rand.NewSource(i))
		var b strings.Builder
		var want []MetaDumpKey
		bad := false
		for n := r.Intn(5); n > 0; n-- {
			var k MetaDumpKey
			var parts []string
			add := func(name string, bits int, signed bool, set func(u uint64, s int64)) {
				if r.Intn(8) == 0 {
					return
				}
				v := num(r, bits)
				if signed && r.Intn(4) == 0 {
					v = "-1"
				}
				parts = append(parts, name+"="+v)
				var err error
				var u uint64
				var s int64
				if signed {
					s, err = strconv.ParseInt(v, 10, bits)
				} else {
					u, err = strconv.ParseUint(v, 10, bits)
				}
				if err != nil {
					bad = true
				}
				set(u, s)
			}
			k.Key = []string{"key01", "a b", "x=y", "%41", "ü", "a%b", "END"}[r.Intn(7)]
			parts = append(parts, "key="+url.PathEscape(strings.ReplaceAll(k.Key, "=", "_")))
			k.Key = strings.ReplaceAll(k.Key, "=", "_")
			add("exp", 64, true, func(_ uint64, s int64) { k.Exp = s })
			add("la", 64, true, func(_ uint64, s int64) { k.LA = s })
			add("cas", 64, false, func(u uint64, _ int64) { k.CAS = u })
			if r.Intn(2) == 0 {
				k.Fetch = r.Intn(2) == 0
				parts = append(parts, map[bool]string{true: "fetch=yes", false: "fetch=no"}[k.Fetch])
			}
			add("cls", 32, false, func(u uint64, _ int64) { k.Class = uint32(u) })
			add("size", 32, false, func(u uint64, _ int64) { k.Size = uint32(u) })
			switch r.Intn(40) {
			case 0:
				parts = append(parts, "oops")
				bad = true
			case 1:
				parts = append(parts, "other=1")
			case 2:
				parts = append(parts, "key=%zz")
				bad = true
			}
			b.WriteString(strings.Join(parts, " ") + "\n")
			want = append(want, k)
		}
		cut := r.Intn(4) == 0
		var rerr error
		if cut {
			if r.Intn(2) == 0 {
				rerr = errors.New("broken")
			}
		} else {
			b.WriteString("END\r\n")
		}
		var got []MetaDumpKey
		err := clientOf(b.String(), r.Intn(9), rerr).MetaDumpAll(func(k MetaDumpKey) { got = append(got, k) })
		if bad || cut {
			if err == nil {
				t.Fatalf("seed %d: no error for\n%s", i, b.String())
			}
			continue
		}
		if err != nil {
			t.Fatalf("seed %d: error %v for\n%s", i, err, b.String())
		}
		if len(got) != len(want) {
			t.Fatalf("seed %d: %d keys, want %d, for\n%s", i, len(got), len(want), b.String())
		}
		for j := range got {
			if got[j] != want[j] {
				t.Fatalf("seed %d: got %+v, want %+v, for\n%s", i, got[j], want[j], b.String())
			}
		}
	}
}
