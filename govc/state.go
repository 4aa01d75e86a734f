package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type pcNode struct {
	f      *Term
	parent *pcNode
	n      int
}

type deferred struct {
	call ssa.CallCommon
	args []Val
	fn   Val
	ins  *ssa.Defer
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	defers []deferred
	loops  []*loopInst // active loops in this frame
	path   string      // inlining path
	iters  map[*ssa.BasicBlock]int
}

func (f *frame) clone() *frame {
	g := &frame{fn: f.fn, path: f.path}
	g.env = make(map[ssa.Value]Val, len(f.env)+4)
	for k, v := range f.env {
		g.env[k] = v
	}
	g.defers = append([]deferred{}, f.defers...)
	g.loops = append([]*loopInst{}, f.loops...)
	if f.iters != nil {
		g.iters = map[*ssa.BasicBlock]int{}
		for k, v := range f.iters {
			g.iters[k] = v
		}
	}
	return g
}

type lockHeld struct {
	mut     *Term
	snap    map[string]*Term // heap at acquisition (after havoc)
	mon     *Monitor
	base    *Term
	gen     int // identifies the acquisition
	signals []sigRec
}

// sigRec: a condition variable signalled under some circumstances.
type sigRec struct{ cond, when *Term }

type pendingSignal struct {
	cond              *Term // cond object description
	need              *Term // condition under which a signal is owed
	name              string
	base              *Term
	mon               *Monitor
	snapPre, snapPost map[string]*Term
	pos               string
}

type State struct {
	pc       *pcNode
	heap     map[string]*Term
	alloc    int
	frames   []*frame
	locks    []*lockHeld
	owed     []*pendingSignal
	trace    []string
	fseq     int
	nonnull  map[int]bool
	shared   bool // a goroutine sharing fresh objects was started
	spawned  bool
	vars     map[string]Val // ghost locals
	calls    map[string]int
	newPools []poolRec
	noted    []string
	built    []builtObj
}

func (st *State) fork() *State {
	n := &State{pc: st.pc, alloc: st.alloc, fseq: freshSeq, shared: st.shared, spawned: st.spawned}
	n.heap = make(map[string]*Term, len(st.heap)+8)
	for k, v := range st.heap {
		n.heap[k] = v
	}
	for _, f := range st.frames {
		n.frames = append(n.frames, f.clone())
	}
	n.locks = append([]*lockHeld{}, st.locks...)
	n.owed = append([]*pendingSignal{}, st.owed...)
	n.trace = append([]string{}, st.trace...)
	n.newPools = append([]poolRec{}, st.newPools...)
	n.noted, n.built = st.noted, st.built
	n.nonnull = make(map[int]bool, len(st.nonnull))
	for k := range st.nonnull {
		n.nonnull[k] = true
	}
	n.vars = make(map[string]Val, len(st.vars))
	for k, v := range st.vars {
		n.vars[k] = v
	}
	n.calls = make(map[string]int, len(st.calls))
	for k, v := range st.calls {
		n.calls[k] = v
	}
	return n
}

func (st *State) assume(t *Term) {
	if t == True {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			st.assume(a)
		}
		return
	}
	n := 0
	if st.pc != nil {
		n = st.pc.n
	}
	// avoid immediate duplicates
	for p, k := st.pc, 0; p != nil && k < 200; p, k = p.parent, k+1 {
		if p.f == t {
			return
		}
	}
	st.pc = &pcNode{f: t, parent: st.pc, n: n + 1}
}

func (st *State) facts() []*Term {
	n := 0
	if st.pc != nil {
		n = st.pc.n
	}
	out := make([]*Term, n)
	for p := st.pc; p != nil; p = p.parent {
		out[p.n-1] = p.f
	}
	return out
}

func snapHeap(h map[string]*Term) map[string]*Term {
	n := make(map[string]*Term, len(h))
	for k, v := range h {
		n[k] = v
	}
	return n
}

// ---------------------------------------------------------------- heap

var heapSort = map[string]string{} // heap name -> element sort
var heapKey = map[string]string{}  // heap name -> key sort

func heapArrSort(name string) string {
	k := heapKey[name]
	if k == "" {
		k = SAddr
	}
	return arrSort(k, heapSort[name])
}

func heapBase(name string) *Term {
	c := Const("H0$"+sanitize(name), heapArrSort(name))
	if len(axioms[c.op]) == 0 {
		if ax := closureAxiom(c, I(0)); ax != nil {
			addAxiom(c.op, ax)
			noteLB(c, 0)
		}
	}
	return c
}

// closureAxiom: every pointer stored in the heap array refers to an object allocated so far.
func closureAxiom(h *Term, bound *Term) *Term {
	es := elemSort(h.sort)
	key := SAddr
	if strings.HasPrefix(h.sort, "(Array Iface") {
		key = SIface
	}
	a := BVar("a", key)
	// guarded: objects allocated later may be read before they are initialised
	guard := True
	if key == SAddr {
		guard = Le(bound, mk("rid", SInt, a))
	}
	switch es {
	case SAddr:
		s := Select(h, a)
		return Forall([]*Term{a}, [][]*Term{{s}}, Imp(guard, Le(bound, mk("rid", SInt, s))))
	case arrSort(SInt, SAddr):
		i := BVar("i", SInt)
		s := Select(Select(h, a), i)
		return Forall([]*Term{a, i}, [][]*Term{{s}}, Imp(guard, Le(bound, mk("rid", SInt, s))))
	}
	return nil
}

func regHeap(name, es string) string {
	if o, ok := heapSort[name]; ok && o != es {
		panic(fmt.Sprintf("heap %s: sort %s vs %s", name, o, es))
	}
	heapSort[name] = es
	return name
}

func getH(h map[string]*Term, name string) *Term {
	if t, ok := h[name]; ok {
		return t
	}
	return heapBase(name)
}

func (st *State) H(name string) *Term { return getH(st.heap, name) }

func fieldLeaves(st types.Type, idx int) (string, []leaf) {
	s, _ := structOf(st)
	f := s.Field(idx)
	return structKey(st) + "." + f.Name(), leavesOf(f.Type())
}

// leavesOf gives the scalar components of a non-struct type.
func leavesOf(t types.Type) []leaf {
	if _, ok := t.Underlying().(*types.Slice); ok {
		return []leaf{{"#arr", SAddr, nil}, {"#off", SInt, nil}, {"#len", SInt, nil}, {"#cap", SInt, nil}}
	}
	s, ok := scalarSort(t)
	if !ok {
		unsupported("leaves of %s", t)
	}
	return []leaf{{"", s, t}}
}

func fromLeaves(t types.Type, ts []*Term) Val {
	if sl, ok := t.Underlying().(*types.Slice); ok {
		return &SliceV{arr: ts[0], off: ts[1], len: ts[2], cap: ts[3], et: sl.Elem()}
	}
	if ts[0].sort == SFn {
		if c, ok := fnConsts[ts[0].op]; ok {
			return c
		}
	}
	return ts[0]
}

func toLeaves(t types.Type, v Val) []*Term {
	if _, ok := t.Underlying().(*types.Slice); ok {
		s := v.(*SliceV)
		return []*Term{s.arr, s.off, s.len, s.cap}
	}
	return []*Term{asTerm(v)}
}

// wf gives the well-formedness facts of a loaded value.
func wfFacts(v Val, t types.Type, alloc int) []*Term {
	switch x := v.(type) {
	case *Term:
		if x.sort == SInt && t != nil {
			if isInt(x) {
				return nil
			}
			return []*Term{inRange(x, t)}
		}
		if x.sort == SAddr && !isCtor(x) {
			return []*Term{Le(I(int64(-alloc)), Rid(x))}
		}
		return nil
	case *SliceV:
		fs := []*Term{Le(I(0), x.off), Le(I(0), x.len), Le(x.len, x.cap), Le(Add(x.off, x.cap), Alen(x.arr)),
			Imp(Eq(x.arr, Null), Eq(x.cap, I(0)))}
		if !isInt(x.len) {
			fs = append(fs, Le(x.len, IntBig(maxLen)), Le(x.cap, IntBig(maxLen)))
		}
		if !isCtor(x.arr) {
			fs = append(fs, Le(I(int64(-alloc)), Rid(x.arr)), Lt(Rid(x.arr), I(staticBase)))
		}
		return fs
	case *StructV:
		var fs []*Term
		if _, ok := opaqueStruct(x.t); ok {
			return nil
		}
		s, _ := structOf(x.t)
		for i := range x.fs {
			fs = append(fs, wfFacts(x.fs[i], s.Field(i).Type(), alloc)...)
		}
		return fs
	case *TupleV:
		var fs []*Term
		for i := range x.vs {
			var et types.Type
			if tt, ok := t.(*types.Tuple); ok {
				et = tt.At(i).Type()
			}
			fs = append(fs, wfFacts(x.vs[i], et, alloc)...)
		}
		return fs
	}
	return nil
}

const staticBase = 1000000000

func (st *State) assumeWF(v Val, t types.Type) {
	for _, l := range leavesOfVal(v) {
		if l.sort == SAddr {
			noteLB(l, int64(-st.alloc))
		}
	}
	for _, f := range wfFacts(v, t, st.alloc) {
		if f.bound {
			continue
		}
		if !st.knownFact(f) {
			st.assume(f)
		}
	}
}

func (st *State) knownFact(f *Term) bool {
	for p := st.pc; p != nil; p = p.parent {
		if p.f == f {
			return true
		}
	}
	return false
}

func elemHeap(t types.Type, l leaf) string {
	return regHeap("E:"+typeKey(t)+l.path, arrSort(SInt, l.sort))
}
func cellHeap(t types.Type, l leaf) string {
	return regHeap("C:"+typeKey(t)+l.path, l.sort)
}
func fieldHeap(key string, l leaf) string {
	return regHeap("F:"+key+l.path, l.sort)
}

// addrTaken: field keys whose address escapes as a plain pointer, with their type.
var addrTaken = map[string][]string{} // type key -> field keys

// location candidates of a non-struct pointer
type locKind int

const (
	locCell locKind = iota
	locElem
	locField
)

type location struct {
	kind locKind
	key  string // field key
	base *Term
	idx  *Term
	cond *Term
}

func resolveLoc(p *Term, t types.Type) []location {
	switch p.op {
	case "elem":
		return []location{{kind: locElem, base: p.args[0], idx: p.args[1], cond: True}}
	case "root":
		return []location{{kind: locCell, base: p, cond: True}}
	case "null":
		return []location{{kind: locCell, base: p, cond: True}}
	case "fld":
		fid := int(p.args[0].ival.Int64())
		return []location{{kind: locField, key: fieldNames[fid-1], base: p.args[1], cond: True}}
	case "ite":
		var out []location
		for _, l := range resolveLoc(p.args[1], t) {
			l.cond = And(p.args[0], l.cond)
			out = append(out, l)
		}
		for _, l := range resolveLoc(p.args[2], t) {
			l.cond = And(Not(p.args[0]), l.cond)
			out = append(out, l)
		}
		return out
	}
	var out []location
	tk := typeKey(t)
	rest := True
	for _, fk := range addrTaken[tk] {
		i := strings.LastIndexByte(fk, '.')
		id := fieldIDByName(fk[:i], fk[i+1:])
		c := And(mk("is-fld", SBool, p), Eq(mk("fid", SInt, p), I(int64(id))))
		out = append(out, location{kind: locField, key: fk, base: mk("fbase", SAddr, p), cond: c})
		rest = And(rest, Not(c))
	}
	ce := mk("is-elem", SBool, p)
	out = append(out, location{kind: locElem, base: ebase(p), idx: eidx(p), cond: And(rest, ce)})
	rest = And(rest, Not(ce))
	out = append(out, location{kind: locCell, base: p, cond: rest})
	return out
}

func readLoc(h map[string]*Term, l location, t types.Type) []*Term {
	var ts []*Term
	for _, lf := range leavesOf(t) {
		switch l.kind {
		case locCell:
			ts = append(ts, Select(getH(h, cellHeap(t, lf)), l.base))
		case locElem:
			ts = append(ts, Select(Select(getH(h, elemHeap(t, lf)), l.base), l.idx))
		case locField:
			ts = append(ts, Select(getH(h, fieldHeap(l.key, lf)), l.base))
		}
	}
	return ts
}

// loadH reads a value of type t at address p in heap h.
func loadH(h map[string]*Term, p *Term, t types.Type) Val {
	if ls, ok := opaqueStruct(t); ok {
		sv := &StructV{t: t}
		for _, l := range ls {
			sv.fs = append(sv.fs, Select(getH(h, opaqueHeap(t, l)), p))
		}
		return sv
	}
	if s, ok := structOf(t); ok {
		sv := &StructV{t: t}
		for i := 0; i < s.NumFields(); i++ {
			sv.fs = append(sv.fs, loadField(h, p, t, i))
		}
		return sv
	}
	locs := resolveLoc(p, t)
	res := readLoc(h, locs[len(locs)-1], t)
	for i := len(locs) - 2; i >= 0; i-- {
		r := readLoc(h, locs[i], t)
		for j := range res {
			res[j] = Ite(locs[i].cond, r[j], res[j])
		}
	}
	return fromLeaves(t, res)
}

func opaqueHeap(t types.Type, l leaf) string {
	n := types.Unalias(t).(*types.Named)
	if n.Obj().Name() == "Pool" {
		return regHeap("F:sync.Pool."+l.path, l.sort)
	}
	return regHeap("O:"+n.Obj().Pkg().Name()+"."+n.Obj().Name()+"."+l.path, l.sort)
}

func loadField(h map[string]*Term, base *Term, st types.Type, i int) Val {
	s, _ := structOf(st)
	ft := s.Field(i).Type()
	if _, ok := structOf(ft); ok {
		return loadH(h, Fld(fieldID(st, i), base), ft)
	}
	if _, ok := ft.Underlying().(*types.Array); ok {
		unsupported("array field")
	}
	key := structKey(st) + "." + s.Field(i).Name()
	if base.op == "ite" {
		return iteVal(base.args[0], loadField(h, base.args[1], st, i), loadField(h, base.args[2], st, i))
	}
	return fromLeaves(ft, readLoc(h, location{kind: locField, key: key, base: base}, ft))
}

func storeH(h map[string]*Term, p *Term, t types.Type, v Val) {
	if ls, ok := opaqueStruct(t); ok {
		sv, ok := v.(*StructV)
		if !ok {
			return
		}
		for i, l := range ls {
			n := opaqueHeap(t, l)
			h[n] = Store(getH(h, n), p, asTerm(sv.fs[i]))
		}
		return
	}
	if s, ok := structOf(t); ok {
		sv := v.(*StructV)
		for i := 0; i < s.NumFields(); i++ {
			storeField(h, p, t, i, sv.fs[i])
		}
		return
	}
	ts := toLeaves(t, v)
	locs := resolveLoc(p, t)
	for _, l := range locs {
		writeLoc(h, l, t, ts)
	}
}

func writeLoc(h map[string]*Term, l location, t types.Type, ts []*Term) {
	for j, lf := range leavesOf(t) {
		switch l.kind {
		case locCell:
			n := cellHeap(t, lf)
			o := getH(h, n)
			h[n] = Ite(l.cond, Store(o, l.base, ts[j]), o)
		case locElem:
			n := elemHeap(t, lf)
			o := getH(h, n)
			h[n] = Ite(l.cond, Store(o, l.base, Store(Select(o, l.base), l.idx, ts[j])), o)
		case locField:
			n := fieldHeap(l.key, lf)
			o := getH(h, n)
			h[n] = Ite(l.cond, Store(o, l.base, ts[j]), o)
		}
	}
}

func storeField(h map[string]*Term, base *Term, st types.Type, i int, v Val) {
	s, _ := structOf(st)
	ft := s.Field(i).Type()
	if _, ok := structOf(ft); ok {
		storeH(h, Fld(fieldID(st, i), base), ft, v)
		return
	}
	key := structKey(st) + "." + s.Field(i).Name()
	writeLoc(h, location{kind: locField, key: key, base: base, cond: True}, ft, toLeaves(ft, v))
}

// elements

func elemAt(h map[string]*Term, s *SliceV, i *Term) Val {
	return loadH(h, Elem(s.arr, Add(s.off, i)), s.et)
}

func contentH(h map[string]*Term, arr *Term, et types.Type) *Term {
	lf := leavesOf(et)
	if len(lf) != 1 {
		unsupported("content of composite element type %s", et)
	}
	return Select(getH(h, elemHeap(et, lf[0])), arr)
}

func setContentH(h map[string]*Term, arr *Term, et types.Type, c *Term) {
	lf := leavesOf(et)
	n := elemHeap(et, lf[0])
	h[n] = Store(getH(h, n), arr, c)
}
