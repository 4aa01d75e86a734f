package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	fn     string
	kind   string // ensures, safety, requires, invariant, frame, ...
	label  string
	text   string
	pos    string
	trace  string
	assume []*Term
	goal   *Term
	ok     bool
	engine string
	props  []string
	ms     int64
}

type Exec struct {
	spec         *FuncSpec
	fn           *ssa.Function
	pkg          *ssa.Package
	obls         []*Obligation
	lockGen      int
	mute         int
	discover     int // inside the search for what a loop writes
	entry        map[string]*Term
	params       map[string]SV
	paths        int
	exits        int
	atoms        *atomSet
	inlined      map[string]bool
	used         map[string]bool // contracts used
	externs      map[string]bool
	fsteps       int
	unroll       int
	reach        []*State
	depthLim     int
	trustedNotes map[string]bool
	entryAlloc   int
	quietFail    string
}

func newExec(fs *FuncSpec, fn *ssa.Function) *Exec {
	return &Exec{spec: fs, fn: fn, pkg: fn.Package(), inlined: map[string]bool{}, used: map[string]bool{}, externs: map[string]bool{}, depthLim: 24, trustedNotes: map[string]bool{}}
}

func posOf(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := theProg.Fset.Position(p)
	f := ps.Filename
	f = strings.TrimPrefix(f, repoDir+"/")
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (x *Exec) oblige(st *State, kind, label, text, pos string, goal *Term) {
	if goal == True {
		if x.mute == 0 {
			x.obls = append(x.obls, &Obligation{fn: x.spec.name, kind: kind, label: label, text: text, pos: pos, goal: True})
		}
		return
	}
	if x.mute == 0 {
		x.obls = append(x.obls, &Obligation{fn: x.spec.name, kind: kind, label: label, text: text, pos: pos, assume: st.facts(), goal: goal, trace: strings.Join(st.trace, " ")})
	}
}

// safety: obligation, then assume it.
func (x *Exec) safety(st *State, text string, pos token.Pos, goal *Term) {
	if goal == True {
		return
	}
	if st.knownFact(goal) {
		return
	}
	x.noteAtom(goal)
	x.oblige(st, "safety", "", text, posOf(pos), goal)
	st.assume(goal)
}

func (x *Exec) nonNil(st *State, p *Term, what string, pos token.Pos) {
	if p.op == "root" || p.op == "elem" || p.op == "fld" {
		return
	}
	if st.nonnull[p.id] {
		return
	}
	st.nonnull[p.id] = true
	x.safety(st, "nil dereference: "+what, pos, Ne(p, Null))
}

func (st *State) top() *frame { return st.frames[len(st.frames)-1] }

// ---------------------------------------------------------------- values of SSA operands

func (x *Exec) val(st *State, fi int, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return constVal(c)
	case *ssa.Function:
		return &ClosureV{fn: c}
	case *ssa.Global:
		return globalAddr(c)
	case *ssa.Builtin:
		return nil
	}
	r, ok := st.frames[fi].env[v]
	if !ok {
		unsupported("unbound value %s in %s", v.Name(), st.frames[fi].fn)
	}
	return r
}

func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return B(constant.BoolVal(c.Value))
	case constant.String:
		return StrLit(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return Const("real$"+sanitize(c.Value.ExactString()), "Real")
		}
		n, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if !ok {
			unsupported("constant %s", c)
		}
		return IntBig(n)
	case constant.Float:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if n, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return I(n)
			}
		}
		return Const("real$"+sanitize(c.Value.ExactString()), "Real")
	}
	unsupported("constant %s", c)
	return nil
}

// ---------------------------------------------------------------- running

type contFn func(st *State, res Val)

func (x *Exec) feasible(st *State) bool {
	x.fsteps++
	as := saturate(st.facts())
	for _, a := range as {
		if a == False {
			return false
		}
	}
	return ask(buildQuery(as), 800) != "unsat"
}

func (x *Exec) feasible2(a, b *State) (bool, bool) {
	var r1, r2 bool
	fa, fb := saturate(a.facts()), saturate(b.facts())
	q1, q2 := buildQuery(fa), buildQuery(fb)
	ch := make(chan bool)
	go func() { r := ask(q1, 800) != "unsat"; ch <- r }()
	r2 = ask(q2, 800) != "unsat"
	r1 = <-ch
	x.fsteps += 2
	return r1, r2
}

const maxPaths = 60000

// run executes block b of the frame fi from instruction idx.
func (x *Exec) run(st *State, fi int, b *ssa.BasicBlock, idx int, k contFn) {
	fr := st.frames[fi]
	for i := idx; i < len(b.Instrs); i++ {
		switch ins := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c := x.val(st, fi, ins.Cond).(*Term)
			if c == True {
				x.enter(st, fi, b, b.Succs[0], k)
				return
			}
			if c == False {
				x.enter(st, fi, b, b.Succs[1], k)
				return
			}
			x.noteAtom(c)
			other := st.fork()
			st.assume(c)
			other.assume(Not(c))
			line := posOf(ins.Cond.Pos())
			st.trace = append(st.trace, line+"+")
			other.trace = append(other.trace, line+"-")
			other.fseq = freshSeq
			st.fseq = freshSeq
			f1, f2 := x.feasible2(st, other)
			if f1 {
				x.enter(st, fi, b, b.Succs[0], k)
			}
			if f2 {
				freshSeq = other.fseq
				x.enter(other, fi, b, b.Succs[1], k)
			}
			return
		case *ssa.Jump:
			x.enter(st, fi, b, b.Succs[0], k)
			return
		case *ssa.Return:
			for _, l := range fr.loops {
				if l.muted {
					return
				}
			}
			var res Val
			switch len(ins.Results) {
			case 0:
				res = &TupleV{}
			case 1:
				res = x.val(st, fi, ins.Results[0])
			default:
				tv := &TupleV{}
				for _, r := range ins.Results {
					tv.vs = append(tv.vs, x.val(st, fi, r))
				}
				res = tv
			}
			k(st, res)
			return
		case *ssa.Panic:
			x.oblige(st, "safety", "", "panic reached", posOf(ins.Pos()), False)
			return
		case *ssa.Call:
			ii := i
			x.call(st, fi, ins, func(st *State, res Val) {
				st.frames[fi].env[ins] = res
				x.run(st, fi, b, ii+1, k)
			})
			return
		case *ssa.RunDefers:
			ii := i
			x.runDefers(st, fi, func(st *State) {
				x.run(st, fi, b, ii+1, k)
			})
			return
		case *ssa.Select:
			ii := i
			x.selectInstr(st, fi, ins, func(st *State, res Val) {
				st.frames[fi].env[ins] = res
				x.run(st, fi, b, ii+1, k)
			})
			return
		case *ssa.UnOp:
			if ins.Op == token.ARROW {
				ii := i
				x.recvInstr(st, fi, ins, func(st *State, res Val) {
					st.frames[fi].env[ins] = res
					x.run(st, fi, b, ii+1, k)
				})
				return
			}
			x.step(st, fi, ins)
		case *ssa.Go:
			x.goInstr(st, fi, ins)
		case *ssa.Send:
			x.sendInstr(st, fi, ins)
		default:
			x.step(st, fi, ins)
		}
		fr = st.frames[fi]
	}
	_ = fr
	unsupported("fell off block in %s", fr.fn)
}

func (x *Exec) enter(st *State, fi int, from, to *ssa.BasicBlock, k contFn) {
	fr := st.frames[fi]
	li := loopsOf(fr.fn)
	// leaving loops
	for n := len(fr.loops); n > 0; n-- {
		in := fr.loops[n-1]
		if in.body[to] {
			break
		}
		if in.muted {
			return
		}
		fr.loops = fr.loops[:n-1]
		st.trace = append(st.trace, "exit")
	}
	if body, ok := li[to]; ok {
		if len(fr.loops) > 0 && fr.loops[len(fr.loops)-1].header == to {
			fr.loops[len(fr.loops)-1].back(st, fi, from)
			return
		}
		x.loop(st, fi, from, to, body, k)
		return
	}
	x.phis(st, fi, from, to)
	x.run(st, fi, to, 0, k)
}

func predIndex(from, to *ssa.BasicBlock) int {
	for i, p := range to.Preds {
		if p == from {
			return i
		}
	}
	panic("pred")
}

func (x *Exec) phis(st *State, fi int, from, to *ssa.BasicBlock) {
	pi := predIndex(from, to)
	var ps []*ssa.Phi
	var vs []Val
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vs = append(vs, x.val(st, fi, p.Edges[pi]))
	}
	for i, p := range ps {
		st.frames[fi].env[p] = vs[i]
	}
}

// ---------------------------------------------------------------- plain instructions

func (x *Exec) step(st *State, fi int, ins ssa.Instruction) {
	env := st.frames[fi].env
	switch in := ins.(type) {
	case *ssa.Alloc:
		env[in] = x.alloc(st, deref(in.Type()))
	case *ssa.BinOp:
		env[in] = x.binop(st, fi, in)
	case *ssa.UnOp:
		v := x.val(st, fi, in.X)
		switch in.Op {
		case token.NOT:
			env[in] = Not(v.(*Term))
		case token.SUB:
			env[in] = x.wrap(st, Sub(I(0), v.(*Term)), in.Type())
		case token.XOR:
			if _, signed := intBits(in.Type()); signed {
				env[in] = Sub(I(-1), v.(*Term))
			} else {
				_, hi, _ := intRange(in.Type())
				env[in] = Sub(IntBig(hi), v.(*Term))
			}
		case token.MUL:
			if g, ok := in.X.(*ssa.Global); ok {
				t := deref(g.Type())
				r := loadGlobal(st.heap, g)
				st.assumeWF(r, t)
				if g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), repoPrefix) && t.String() == "error" {
					x.externs["error variable "+g.String()+" (assumed not nil)"] = true
					st.assume(Ne(r.(*Term), NilIface))
				}
				env[in] = r
				return
			}
			env[in] = x.load(st, v.(*Term), in.Type(), in.Pos(), in.X)
		default:
			unsupported("unop %s", in.Op)
		}
	case *ssa.ChangeType, *ssa.ChangeInterface:
		var src ssa.Value
		if c, ok := in.(*ssa.ChangeType); ok {
			src = c.X
		} else {
			src = in.(*ssa.ChangeInterface).X
		}
		v := x.val(st, fi, src)
		if sv, ok := v.(*StructV); ok {
			v = &StructV{fs: sv.fs, t: in.(ssa.Value).Type()}
		}
		env[in.(ssa.Value)] = v
	case *ssa.Convert:
		env[in] = x.convert(st, x.val(st, fi, in.X), in.X.Type(), in.Type(), in.Pos())
	case *ssa.Extract:
		env[in] = x.val(st, fi, in.Tuple).(*TupleV).vs[in.Index]
	case *ssa.Field:
		env[in] = x.val(st, fi, in.X).(*StructV).fs[in.Field]
	case *ssa.FieldAddr:
		p := x.val(st, fi, in.X).(*Term)
		s, _ := structOf(deref(in.X.Type()))
		x.nonNil(st, p, in.X.Name()+"."+s.Field(in.Field).Name(), in.Pos())
		env[in] = Fld(fieldID(deref(in.X.Type()), in.Field), p)
	case *ssa.IndexAddr:
		env[in] = x.indexAddr(st, fi, in)
	case *ssa.Index:
		v := x.val(st, fi, in.X)
		i := x.val(st, fi, in.Index).(*Term)
		if t, ok := v.(*Term); ok && t.sort == SStr {
			x.safety(st, "index out of range", in.Pos(), And(Le(I(0), i), Lt(i, Slen(t))))
			env[in] = Sat(t, i)
			return
		}
		unsupported("index of array value")
	case *ssa.Lookup:
		x.lookup(st, fi, in)
	case *ssa.MakeChan:
		a := x.allocRaw(st)
		sz := x.val(st, fi, in.Size).(*Term)
		st.assume(Eq(mk("chancap", SInt, a), sz))
		x.ghostInitChan(st, a)
		env[in] = a
	case *ssa.MakeClosure:
		c := &ClosureV{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.bind = append(c.bind, x.val(st, fi, b))
		}
		env[in] = c
	case *ssa.MakeInterface:
		env[in] = boxVal(x.val(st, fi, in.X), in.X.Type())
	case *ssa.MakeMap:
		env[in] = x.makeMap(st, in.Type())
	case *ssa.MapUpdate:
		x.mapUpdate(st, fi, in)
	case *ssa.MakeSlice:
		n := x.val(st, fi, in.Len).(*Term)
		c := x.val(st, fi, in.Cap).(*Term)
		x.safety(st, "makeslice: len or cap out of range", in.Pos(), And(Le(I(0), n), Le(n, c), Le(c, IntBig(maxLen))))
		et := in.Type().Underlying().(*types.Slice).Elem()
		env[in] = x.makeSlice(st, et, n, c)
	case *ssa.Slice:
		env[in] = x.slice(st, fi, in)
	case *ssa.Store:
		p := x.val(st, fi, in.Addr).(*Term)
		v := x.val(st, fi, in.Val)
		x.store(st, p, deref(in.Addr.Type()), v, in.Pos(), in.Addr)
	case *ssa.TypeAssert:
		x.typeAssert(st, fi, in)
	case *ssa.Range:
		v := x.val(st, fi, in.X)
		t, ok := v.(*Term)
		if !ok || t.sort != SStr {
			unsupported("range over map")
		}
		// iterator position lives in a cell so that loops can havoc it
		a := x.allocRaw(st)
		storeH(st.heap, a, types.Typ[types.Int], I(0))
		env[in] = &IterV{str: t, pos: a}
	case *ssa.Next:
		x.next(st, fi, in)
	case *ssa.Defer:
		d := deferred{call: in.Call, ins: in}
		for _, a := range in.Call.Args {
			d.args = append(d.args, x.val(st, fi, a))
		}
		if !in.Call.IsInvoke() {
			d.fn = x.val(st, fi, in.Call.Value)
		} else {
			d.fn = x.val(st, fi, in.Call.Value)
		}
		st.frames[fi].defers = append(st.frames[fi].defers, d)
	default:
		unsupported("instruction %T", ins)
	}
}

func (x *Exec) allocRaw(st *State) *Term {
	st.alloc++
	return Root(I(int64(-st.alloc)))
}

func (x *Exec) alloc(st *State, t types.Type) *Term {
	a := x.allocRaw(st)
	if at, ok := t.Underlying().(*types.Array); ok {
		x.zeroContent(st, a, at.Elem(), I(at.Len()))
		return a
	}
	storeH(st.heap, a, t, zeroVal(t))
	return a
}

func (x *Exec) zeroContent(st *State, a *Term, et types.Type, n *Term) {
	st.assume(Eq(Alen(a), n))
	if _, ok := structOf(et); ok {
		// struct elements: state nothing (zero contents are not needed) except for pools
		return
	}
	for i, lf := range leavesOf(et) {
		_ = i
		h := elemHeap(et, lf)
		st.heap[h] = Store(st.H(h), a, ConstArr(arrSort(SInt, lf.sort), zeroScalar(lf.sort)))
	}
}

func (x *Exec) makeSlice(st *State, et types.Type, n, c *Term) *SliceV {
	a := x.allocRaw(st)
	x.zeroContent(st, a, et, c)
	return &SliceV{arr: a, off: I(0), len: n, cap: c, et: et}
}

func (x *Exec) load(st *State, p *Term, t types.Type, pos token.Pos, src ssa.Value) Val {
	x.nonNil(st, p, "load", pos)
	x.guard(st, p, t, false, pos)
	if isCondPtr(t) && p.op == "fld" {
		return p
	}
	v := loadH(st.heap, p, t)
	st.assumeWF(v, t)
	if k := fldKey(p); immutableFields[k] {
		usedImm[k] = true
		st.typeFacts(k[:strings.LastIndexByte(k, '.')], p.args[1])
	}
	return v
}

func isCondPtr(t types.Type) bool {
	return isNamed(deref(t), "sync", "Cond") && !isNamed(t, "sync", "Cond")
}

func (x *Exec) store(st *State, p *Term, t types.Type, v Val, pos token.Pos, dst ssa.Value) {
	x.nonNil(st, p, "store", pos)
	x.guard(st, p, t, true, pos)
	x.immStore(st, p, t, pos)
	x.storeHook(st, p, t, v, pos)
	if isCondPtr(t) && p.op == "fld" {
		x.condStored(st, p, v, pos)
		return
	}
	storeH(st.heap, p, t, v)
}

func (x *Exec) indexAddr(st *State, fi int, in *ssa.IndexAddr) Val {
	v := x.val(st, fi, in.X)
	i := x.val(st, fi, in.Index).(*Term)
	switch s := v.(type) {
	case *SliceV:
		x.safety(st, "index out of range", in.Pos(), And(Le(I(0), i), Lt(i, s.len)))
		x.guardElem(st, s, in.Pos())
		return Elem(s.arr, Add(s.off, i))
	case *Term:
		at := deref(in.X.Type()).Underlying().(*types.Array)
		x.nonNil(st, s, "array", in.Pos())
		x.safety(st, "index out of range", in.Pos(), And(Le(I(0), i), Lt(i, I(at.Len()))))
		return Elem(s, i)
	}
	unsupported("IndexAddr of %T", v)
	return nil
}

func (x *Exec) lookup(st *State, fi int, in *ssa.Lookup) {
	v := x.val(st, fi, in.X)
	k := x.val(st, fi, in.Index)
	t := v.(*Term)
	if t.sort == SStr {
		i := k.(*Term)
		x.safety(st, "index out of range", in.Pos(), And(Le(I(0), i), Lt(i, Slen(t))))
		st.frames[fi].env[in] = Sat(t, i)
		return
	}
	mt := in.X.Type().Underlying().(*types.Map)
	key := asTerm(k)
	dom, vals := mapLeaves(mt)
	has := And(Ne(t, Null), Select(Select(st.H(dom), t), key))
	et := mt.Elem()
	val := x.mapRead(st, t, key, mt, vals)
	val = iteVal(has, val, zeroVal(et))
	if in.CommaOk {
		st.frames[fi].env[in] = &TupleV{vs: []Val{val, has}}
	} else {
		st.frames[fi].env[in] = val
	}
}

// maps: one array per leaf of the element type
type mapLeaf struct {
	heap string
	path []int
	sort string
	typ  types.Type
}

func mapLeaves(mt *types.Map) (string, []mapLeaf) {
	ks, ok := scalarSort(mt.Key())
	if !ok {
		unsupported("map key")
	}
	base := "M:" + typeKey(mt)
	dom := regHeap(base+"#dom", arrSort(ks, SBool))
	var out []mapLeaf
	var walk func(t types.Type, name string, path []int)
	walk = func(t types.Type, name string, path []int) {
		if s, ok := structOf(t); ok {
			for i := 0; i < s.NumFields(); i++ {
				walk(s.Field(i).Type(), name+"."+s.Field(i).Name(), append(append([]int{}, path...), i))
			}
			return
		}
		srt, ok := scalarSort(t)
		if !ok {
			unsupported("map element type %s", t)
		}
		out = append(out, mapLeaf{regHeap(base+name, arrSort(ks, srt)), path, srt, t})
	}
	walk(mt.Elem(), "", nil)
	return dom, out
}

func (x *Exec) mapRead(st *State, m, key *Term, mt *types.Map, ls []mapLeaf) Val {
	return mapReadH(st.heap, m, key, mt, ls, st)
}

func mapReadH(h map[string]*Term, m, key *Term, mt *types.Map, ls []mapLeaf, st *State) Val {
	i := 0
	var build func(t types.Type) Val
	build = func(t types.Type) Val {
		if s, ok := structOf(t); ok {
			sv := &StructV{t: t}
			for j := 0; j < s.NumFields(); j++ {
				sv.fs = append(sv.fs, build(s.Field(j).Type()))
			}
			return sv
		}
		v := Select(Select(getH(h, ls[i].heap), m), key)
		if st != nil {
			st.assumeWF(v, t)
		}
		i++
		return v
	}
	return build(mt.Elem())
}

func (x *Exec) makeMap(st *State, t types.Type) Val {
	mt := t.Underlying().(*types.Map)
	a := x.allocRaw(st)
	dom, _ := mapLeaves(mt)
	ks, _ := scalarSort(mt.Key())
	st.heap[dom] = Store(st.H(dom), a, ConstArr(arrSort(ks, SBool), False))
	return a
}

func (x *Exec) mapUpdate(st *State, fi int, in *ssa.MapUpdate) {
	m := x.val(st, fi, in.Map).(*Term)
	key := asTerm(x.val(st, fi, in.Key))
	v := x.val(st, fi, in.Value)
	x.safety(st, "assignment to entry in nil map", in.Pos(), Ne(m, Null))
	mt := in.Map.Type().Underlying().(*types.Map)
	dom, ls := mapLeaves(mt)
	st.heap[dom] = Store(st.H(dom), m, Store(Select(st.H(dom), m), key, True))
	for _, l := range ls {
		w := v
		for _, p := range l.path {
			w = w.(*StructV).fs[p]
		}
		st.heap[l.heap] = Store(st.H(l.heap), m, Store(Select(st.H(l.heap), m), key, asTerm(w)))
	}
}

func (x *Exec) next(st *State, fi int, in *ssa.Next) {
	it := x.val(st, fi, in.Iter).(*IterV)
	if !in.IsString {
		unsupported("range over map")
	}
	pos := loadH(st.heap, it.pos, types.Typ[types.Int]).(*Term)
	st.assume(And(Le(I(0), pos), Le(pos, Slen(it.str))))
	ok := Lt(pos, Slen(it.str))
	b := Sat(it.str, pos)
	r := Fresh("rune", SInt)
	w := Fresh("width", SInt)
	st.assume(Imp(ok, And(Le(I(1), w), Le(w, I(4)), Le(Add(pos, w), Slen(it.str)),
		Imp(Lt(b, I(128)), And(Eq(r, b), Eq(w, I(1)))),
		Imp(Le(I(128), b), And(Le(I(128), r), Le(r, I(0x10FFFF)))))))
	npos := Ite(ok, Add(pos, w), pos)
	storeH(st.heap, it.pos, types.Typ[types.Int], npos)
	st.frames[fi].env[in] = &TupleV{vs: []Val{ok, pos, r}}
}

func (x *Exec) typeAssert(st *State, fi int, in *ssa.TypeAssert) {
	v := x.val(st, fi, in.X).(*Term)
	env := st.frames[fi].env
	if _, ok := in.AssertedType.Underlying().(*types.Interface); ok {
		// interface to interface
		has := Fresh("implements", SBool)
		st.assume(Imp(has, Ne(v, NilIface)))
		if in.CommaOk {
			env[in] = &TupleV{vs: []Val{Ite(has, v, NilIface), has}}
		} else {
			x.safety(st, "type assertion", in.Pos(), has)
			env[in] = v
		}
		return
	}
	has := hasType(v, in.AssertedType)
	val := unboxVal(v, in.AssertedType)
	if in.CommaOk {
		z := zeroVal(in.AssertedType)
		env[in] = &TupleV{vs: []Val{iteVal(has, val, z), has}}
		if has != False {
			st.assumeWFCond(has, val, in.AssertedType)
		}
		return
	}
	x.safety(st, "type assertion to "+typeKey(in.AssertedType), in.Pos(), has)
	st.assumeWF(val, in.AssertedType)
	env[in] = val
}

func (st *State) assumeWFCond(c *Term, v Val, t types.Type) {
	for _, f := range wfFacts(v, t, st.alloc) {
		st.assume(Imp(c, f))
	}
}

func (x *Exec) slice(st *State, fi int, in *ssa.Slice) Val {
	v := x.val(st, fi, in.X)
	get := func(e ssa.Value, d *Term) *Term {
		if e == nil {
			return d
		}
		return x.val(st, fi, e).(*Term)
	}
	switch s := v.(type) {
	case *SliceV:
		lo := get(in.Low, I(0))
		hi := get(in.High, s.len)
		mx := get(in.Max, s.cap)
		x.safety(st, "slice bounds out of range", in.Pos(), And(Le(I(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, s.cap)))
		r := &SliceV{arr: s.arr, off: Add(s.off, lo), len: Sub(hi, lo), cap: Sub(mx, lo), et: s.et}
		if in.High != nil && hi != s.len && Le(hi, s.len) != True {
			x.sliceBeyondLen(st, s, hi)
		}
		return r
	case *Term:
		if s.sort == SStr {
			lo := get(in.Low, I(0))
			hi := get(in.High, Slen(s))
			x.safety(st, "slice bounds out of range", in.Pos(), And(Le(I(0), lo), Le(lo, hi), Le(hi, Slen(s))))
			return x.substr(st, s, lo, hi)
		}
		at := deref(in.X.Type()).Underlying().(*types.Array)
		lo := get(in.Low, I(0))
		hi := get(in.High, I(at.Len()))
		x.safety(st, "slice bounds out of range", in.Pos(), And(Le(I(0), lo), Le(lo, hi), Le(hi, I(at.Len()))))
		return &SliceV{arr: s, off: lo, len: Sub(hi, lo), cap: Sub(I(at.Len()), lo), et: at.Elem()}
	}
	unsupported("slice of %T", v)
	return nil
}

// Elements past len are unspecified after a growing append in this model; exposing them forgets their values.
func (x *Exec) sliceBeyondLen(st *State, s *SliceV, hi *Term) {
	if s.len == s.cap || x.discover > 0 {
		return
	}
	if st.top() != nil {
		as := append(st.facts(), Lt(s.len, hi))
		if ask(buildQuery(saturate(as)), 800) == "unsat" {
			return
		}
	}
	if grownNever(s) {
		return
	}
	if _, ok := structOf(s.et); ok {
		return
	}
	for _, lf := range leavesOf(s.et) {
		n := elemHeap(s.et, lf)
		old := Select(st.H(n), s.arr)
		c := Fresh("exposed", old.sort)
		i := BVar("i", SInt)
		sel := Select(c, i)
		st.assume(Forall([]*Term{i}, [][]*Term{{sel}}, Imp(Lt(i, Add(s.off, s.len)), Eq(sel, Select(old, i)))))
		st.heap[n] = Store(st.H(n), s.arr, c)
	}
}

func grownNever(s *SliceV) bool { return s.arr.op == "root" }

func (x *Exec) substr(st *State, s, lo, hi *Term) *Term {
	if lo == I(0) && hi == Slen(s) {
		return s
	}
	if lit, ok := strLitVal[s.op]; ok && isInt(lo) && isInt(hi) {
		return StrLit(lit[lo.ival.Int64():hi.ival.Int64()])
	}
	r := mk("substr", SStr, s, lo, hi)
	st.assume(Eq(mk("slen", SInt, r), Sub(hi, lo)))
	i := BVar("i", SInt)
	sel := Sat(r, i)
	st.assume(Forall([]*Term{i}, [][]*Term{{sel}}, Imp(And(Le(I(0), i), Lt(i, Sub(hi, lo))), Eq(sel, Sat(s, Add(lo, i))))))
	return r
}

// ---------------------------------------------------------------- arithmetic

func wrapTerm(t *Term, ty types.Type) *Term {
	lo, hi, ok := intRange(ty)
	if !ok {
		return t
	}
	if isInt(t) {
		if t.ival.Cmp(lo) >= 0 && t.ival.Cmp(hi) <= 0 {
			return t
		}
		m := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
		r := new(big.Int).Sub(t.ival, lo)
		r.Mod(r, m)
		return IntBig(r.Add(r, lo))
	}
	m := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	return Ite(And(Le(IntBig(lo), t), Le(t, IntBig(hi))), t, Add(Mod(Sub(t, IntBig(lo)), IntBig(m)), IntBig(lo)))
}

func (x *Exec) wrap(st *State, t *Term, ty types.Type) *Term {
	lo, hi, ok := intRange(ty)
	if !ok {
		return t
	}
	if isInt(t) {
		return wrapTerm(t, ty)
	}
	in := And(Le(IntBig(lo), t), Le(t, IntBig(hi)))
	if in == True || st.knownFact(in) {
		return t
	}
	if l, h, ok := st.interval(t, 6); ok && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return t
	}
	x.fsteps++
	as := saturate(append(st.facts(), Not(in)))
	if ask(buildQuery(as), 1500) == "unsat" {
		return t
	}
	return wrapTerm(t, ty)
}

// interval computes syntactic bounds of an integer term from range facts in the path condition.
func (st *State) interval(t *Term, depth int) (*big.Int, *big.Int, bool) {
	if depth == 0 {
		return nil, nil, false
	}
	switch t.op {
	case "int":
		return t.ival, t.ival, true
	case "+":
		lo, hi := new(big.Int), new(big.Int)
		for _, a := range t.args {
			l, h, ok := st.interval(a, depth-1)
			if !ok {
				return nil, nil, false
			}
			lo.Add(lo, l)
			hi.Add(hi, h)
		}
		return lo, hi, true
	case "*":
		if isInt(t.args[0]) {
			l, h, ok := st.interval(t.args[1], depth-1)
			if !ok {
				return nil, nil, false
			}
			a, b := new(big.Int).Mul(t.args[0].ival, l), new(big.Int).Mul(t.args[0].ival, h)
			if a.Cmp(b) > 0 {
				a, b = b, a
			}
			return a, b, true
		}
	case "mod":
		if isInt(t.args[1]) && t.args[1].ival.Sign() > 0 {
			return new(big.Int), new(big.Int).Sub(t.args[1].ival, big.NewInt(1)), true
		}
	case "div":
		if isInt(t.args[1]) && t.args[1].ival.Sign() > 0 {
			l, h, ok := st.interval(t.args[0], depth-1)
			if ok && l.Sign() >= 0 {
				return new(big.Int).Div(l, t.args[1].ival), new(big.Int).Div(h, t.args[1].ival), true
			}
		}
	case "ite":
		l1, h1, ok1 := st.interval(t.args[1], depth-1)
		l2, h2, ok2 := st.interval(t.args[2], depth-1)
		if ok1 && ok2 {
			if l2.Cmp(l1) < 0 {
				l1 = l2
			}
			if h2.Cmp(h1) > 0 {
				h1 = h2
			}
			return l1, h1, true
		}
	case "slen", "alen":
		return new(big.Int), maxLen, true
	case "sat":
		return new(big.Int), big.NewInt(255), true
	}
	var lo, hi *big.Int
	for p := st.pc; p != nil; p = p.parent {
		f := p.f
		if f.op == "<=" {
			if f.args[1] == t && isInt(f.args[0]) && (lo == nil || f.args[0].ival.Cmp(lo) > 0) {
				lo = f.args[0].ival
			}
			if f.args[0] == t && isInt(f.args[1]) && (hi == nil || f.args[1].ival.Cmp(hi) < 0) {
				hi = f.args[1].ival
			}
		}
	}
	if lo != nil && hi != nil {
		return lo, hi, true
	}
	return nil, nil, false
}

func (x *Exec) nonneg(st *State, t *Term) bool {
	if l, _, ok := st.interval(t, 6); ok && l.Sign() >= 0 {
		return true
	}
	g := Le(I(0), t)
	if g == True || st.knownFact(g) {
		return true
	}
	x.fsteps++
	return ask(buildQuery(saturate(append(st.facts(), Not(g)))), 1500) == "unsat"
}

func (x *Exec) binop(st *State, fi int, in *ssa.BinOp) Val {
	a, b := x.val(st, fi, in.X), x.val(st, fi, in.Y)
	switch in.Op {
	case token.EQL, token.NEQ:
		r := x.equal(a, b, in.X.Type(), in.Y.Type())
		if in.Op == token.NEQ {
			return Not(r)
		}
		return r
	}
	ta, tb := asTerm(a), asTerm(b)
	ty := in.Type()
	if ta.sort == SStr {
		switch in.Op {
		case token.ADD:
			r := Fresh("concat", SStr)
			st.assume(Eq(Slen(r), Add(Slen(ta), Slen(tb))))
			i := BVar("i", SInt)
			sel := Sat(r, i)
			st.assume(Forall([]*Term{i}, [][]*Term{{sel}}, And(Imp(And(Le(I(0), i), Lt(i, Slen(ta))), Eq(sel, Sat(ta, i))),
				Imp(And(Le(Slen(ta), i), Lt(i, Slen(r))), Eq(sel, Sat(tb, Sub(i, Slen(ta))))))))
			return r
		default:
			return Fresh("strcmp", SBool)
		}
	}
	if ta.sort == "Real" {
		if isBool(ty) {
			return Fresh("fcmp", SBool)
		}
		return Fresh("fop", "Real")
	}
	switch in.Op {
	case token.ADD:
		return x.wrap(st, Add(ta, tb), ty)
	case token.SUB:
		return x.wrap(st, Sub(ta, tb), ty)
	case token.MUL:
		return x.wrap(st, Mul(ta, tb), ty)
	case token.QUO:
		x.safety(st, "division by zero", in.Pos(), Ne(tb, I(0)))
		return x.quo(st, ta, tb, ty)
	case token.REM:
		x.safety(st, "division by zero", in.Pos(), Ne(tb, I(0)))
		if x.nonneg(st, ta) && x.nonneg(st, tb) {
			if isInt(tb) {
				return Mod(ta, tb)
			}
			st.assume(And(Le(I(0), mk("rmod", SInt, ta, tb)), Lt(mk("rmod", SInt, ta, tb), tb)))
			return mk("rmod", SInt, ta, tb)
		}
		return Sub(ta, Mul(x.quo(st, ta, tb, ty), tb))
	case token.LSS:
		return Lt(ta, tb)
	case token.LEQ:
		return Le(ta, tb)
	case token.GTR:
		return Lt(tb, ta)
	case token.GEQ:
		return Le(tb, ta)
	case token.AND:
		return x.bitand(st, ta, tb, ty)
	case token.OR:
		return x.bitor(st, ta, tb, ty)
	case token.AND_NOT, token.XOR:
		if isInt(ta) && isInt(tb) {
			r := new(big.Int)
			if in.Op == token.XOR {
				r.Xor(ta.ival, tb.ival)
			} else {
				r.AndNot(ta.ival, tb.ival)
			}
			return IntBig(r)
		}
		r := Fresh("bits", SInt)
		st.assume(inRange(r, ty))
		return r
	case token.SHL:
		if !x.nonneg(st, tb) {
			x.safety(st, "negative shift", in.Pos(), Le(I(0), tb))
		}
		bits, _ := intBits(ty)
		p := Ite(Lt(tb, I(int64(bits))), pow2(tb), I(0))
		if isInt(tb) {
			if tb.ival.Int64() >= int64(bits) {
				return I(0)
			}
			p = pow2(tb)
		} else {
			x.fsteps++
			if ask(buildQuery(saturate(append(st.facts(), Not(Lt(tb, I(int64(bits))))))), 1500) == "unsat" {
				p = pow2(tb)
			}
		}
		return x.wrap(st, Mul(ta, p), ty)
	case token.SHR:
		if !x.nonneg(st, tb) {
			x.safety(st, "negative shift", in.Pos(), Le(I(0), tb))
		}
		if isInt(tb) && x.nonneg(st, ta) {
			return Div(ta, pow2(tb))
		}
		r := Fresh("shr", SInt)
		st.assume(inRange(r, ty))
		if x.nonneg(st, ta) {
			st.assume(And(Le(I(0), r), Le(r, ta)))
			st.assume(Eq(r, Div(ta, pow2(tb))))
		}
		return r
	}
	unsupported("binop %s", in.Op)
	return nil
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (x *Exec) quo(st *State, a, b *Term, ty types.Type) *Term {
	if x.nonneg(st, a) && x.nonneg(st, b) {
		return Div(a, b)
	}
	// truncated division
	abs := func(t *Term) *Term { return Ite(Le(I(0), t), t, Sub(I(0), t)) }
	q := Div(abs(a), abs(b))
	same := Eq(Le(I(0), a), Le(I(0), b))
	return wrapTerm(Ite(same, q, Sub(I(0), q)), ty)
}

func (x *Exec) bitand(st *State, a, b *Term, ty types.Type) *Term {
	if isInt(a) && isInt(b) {
		return IntBig(new(big.Int).And(a.ival, b.ival))
	}
	if isInt(a) {
		a, b = b, a
	}
	if isInt(b) {
		if b.ival.Sign() == 0 {
			return I(0)
		}
		m1 := new(big.Int).Add(b.ival, big.NewInt(1))
		if m1.BitLen() > 0 && new(big.Int).And(m1, b.ival).Sign() == 0 && x.nonneg(st, a) {
			return Mod(a, IntBig(m1))
		}
		if b.ival.Sign() > 0 && x.nonneg(st, a) {
			// sum over the bits of the mask
			var parts []*Term
			for i := 0; i < b.ival.BitLen(); i++ {
				if b.ival.Bit(i) == 1 {
					parts = append(parts, Mul(IntBig(p2[i]), Mod(Div(a, IntBig(p2[i])), I(2))))
				}
			}
			return Add(parts...)
		}
	}
	x.nonneg(st, a)
	return mk("band", SInt, a, b)
}

func (x *Exec) bitor(st *State, a, b *Term, ty types.Type) *Term {
	if isInt(a) && isInt(b) {
		return IntBig(new(big.Int).Or(a.ival, b.ival))
	}
	if isInt(a) {
		a, b = b, a
	}
	if isInt(b) && b.ival.Sign() >= 0 && x.nonneg(st, a) {
		// a | m = a + m - (a & m)
		return Sub(Add(a, b), x.bitand(st, a, b, ty))
	}
	r := mk("bor", SInt, a, b)
	st.assume(inRange(r, ty))
	return r
}

func (x *Exec) equal(a, b Val, ta, tb types.Type) *Term {
	// slices and funcs compare only with nil
	if s, ok := a.(*SliceV); ok {
		return Eq(s.arr, Null)
	}
	_, ia := ta.Underlying().(*types.Interface)
	_, ib := tb.Underlying().(*types.Interface)
	if ia && !ib {
		return Eq(a.(*Term), boxVal(b, tb))
	}
	if ib && !ia {
		return Eq(boxVal(a, ta), b.(*Term))
	}
	return valEq(a, b)
}

func (x *Exec) convert(st *State, v Val, from, to types.Type, pos token.Pos) Val {
	fu, tu := from.Underlying(), to.Underlying()
	if fb, ok := fu.(*types.Basic); ok {
		if tb, ok := tu.(*types.Basic); ok {
			if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
				return x.wrap(st, v.(*Term), to)
			}
			if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
				return v
			}
			if tb.Kind() == types.UnsafePointer || fb.Kind() == types.UnsafePointer {
				return v
			}
			if tb.Info()&types.IsInteger != 0 {
				r := Fresh("conv", SInt)
				st.assume(inRange(r, to))
				return r
			}
			if tb.Info()&types.IsFloat != 0 {
				return Fresh("conv", "Real")
			}
			if tb.Info()&types.IsString != 0 {
				return Fresh("conv", SStr)
			}
		}
		if sl, ok := tu.(*types.Slice); ok && fb.Info()&types.IsString != 0 {
			s := v.(*Term)
			r := x.makeSlice(st, sl.Elem(), Slen(s), Slen(s))
			c := Fresh("bytes", arrSort(SInt, SInt))
			i := BVar("i", SInt)
			sel := Select(c, i)
			if lit, ok := strLitVal[s.op]; ok && len(lit) <= 64 {
				t := ConstArr(arrSort(SInt, SInt), I(0))
				for j := 0; j < len(lit); j++ {
					t = Store(t, I(int64(j)), I(int64(lit[j])))
				}
				setContentH(st.heap, r.arr, sl.Elem(), t)
				return r
			}
			st.assume(Forall([]*Term{i}, [][]*Term{{sel}}, Imp(And(Le(I(0), i), Lt(i, Slen(s))), Eq(sel, Sat(s, i)))))
			setContentH(st.heap, r.arr, sl.Elem(), c)
			return r
		}
		if _, ok := tu.(*types.Pointer); ok { // unsafe.Pointer -> *T
			return v
		}
	}
	if _, ok := fu.(*types.Slice); ok {
		if tb, ok := tu.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
			return x.bytesToStr(st, v.(*SliceV))
		}
		return v
	}
	if _, ok := fu.(*types.Pointer); ok {
		return v
	}
	unsupported("conversion %s -> %s", from, to)
	return nil
}

func (x *Exec) bytesToStr(st *State, s *SliceV) *Term {
	c := contentH(st.heap, s.arr, s.et)
	r := mk("str_of", SStr, c, s.off, s.len)
	st.assume(Eq(mk("slen", SInt, r), s.len))
	i := BVar("i", SInt)
	sel := mk("sat", SInt, r, i)
	st.assume(Forall([]*Term{i}, [][]*Term{{sel}}, Imp(And(Le(I(0), i), Lt(i, s.len)), Eq(sel, Select(c, Add(s.off, i))))))
	return r
}

var debugOn = os.Getenv("GOVC_DEBUG") != ""

func debugf(f string, a ...interface{}) {
	if debugOn {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
