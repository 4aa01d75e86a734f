package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// model gives the semantics assumed for functions outside the repository.
func (x *Exec) model(st *State, fn *ssa.Function, args []Val, pos token.Pos, k contFn) bool {
	name := fn.String()
	done := func(v Val) bool { k(st, v); return true }
	note := func(s string) { x.trustedNotes[s] = true }
	switch name {
	case "(*sync.Mutex).Lock":
		note("sync.Mutex: mutual exclusion, happens-before")
		x.lock(st, asTerm(args[0]), pos)
		return done(&TupleV{})
	case "(*sync.Mutex).Unlock":
		x.unlock(st, asTerm(args[0]), pos)
		return done(&TupleV{})
	case "(*sync.Cond).Wait":
		note("sync.Cond: Wait releases and re-acquires its mutex, Signal wakes one waiter, Broadcast all")
		x.condWait(st, asTerm(args[0]), pos)
		return done(&TupleV{})
	case "(*sync.Cond).Signal", "(*sync.Cond).Broadcast":
		x.condSignal(st, asTerm(args[0]), True)
		return done(&TupleV{})
	case "sync.NewCond":
		i := asTerm(args[0])
		return done(mk("newcond", SAddr, unboxAddr(i)))
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done":
		note("sync.WaitGroup")
		return done(&TupleV{})
	case "(*sync.WaitGroup).Wait":
		x.blocking(st, "WaitGroup.Wait", posOf(pos))
		return done(&TupleV{})
	case "(*sync.Pool).Get":
		note("sync.Pool: Get returns a value made by New or given to Put earlier, to one caller only")
		return done(x.poolGet(st, asTerm(args[0]), pos))
	case "(*sync.Pool).Put":
		x.poolPut(st, asTerm(args[0]), asTerm(args[1]), pos)
		return done(&TupleV{})
	case "bytes.Equal":
		note("bytes.Equal compares contents")
		c := &evalCtx{heap: st.heap}
		a, b := args[0].(*SliceV), args[1].(*SliceV)
		return done(seqEq(c.seqOf(SV{v: a}), c.seqOf(SV{v: b})))
	case "math/bits.Len32", "math/bits.Len64", "math/bits.Len":
		n := asTerm(args[0])
		r := Fresh("bitlen", SInt)
		hi := int64(64)
		if name == "math/bits.Len32" {
			hi = 32
		}
		cs := []*Term{Le(I(0), r), Le(r, I(hi)), Imp(Eq(n, I(0)), Eq(r, I(0)))}
		for i := int64(1); i <= hi; i++ {
			cs = append(cs, Imp(And(Le(IntBig(p2[i-1]), n), Lt(n, IntBig(p2[i]))), Eq(r, I(i))))
		}
		st.assume(And(cs...))
		note("math/bits.Len")
		return done(r)
	case "strconv.ParseUint", "strconv.ParseInt":
		note("strconv.ParseUint/ParseInt (uf isnum, numval of the text, base and size)")
		s := asTerm(args[0])
		sfx := "u"
		if name == "strconv.ParseInt" {
			sfx = "i"
		}
		ok := mk("uf$isnum"+sfx, SBool, s, asTerm(args[1]), asTerm(args[2]))
		v := mk("uf$numval"+sfx, SInt, s, asTerm(args[1]), asTerm(args[2]))
		e := Fresh("parseerr", SIface)
		st.assume(Eq(ok, Eq(e, NilIface)))
		st.assume(inRange(v, fn.Signature.Results().At(0).Type()))
		if sfx == "u" {
			if sz := asTerm(args[2]); isInt(sz) && sz.ival.Int64() > 0 {
				st.assume(Lt(v, IntBig(p2[sz.ival.Int64()])))
			}
		}
		return done(&TupleV{vs: []Val{v, e}})
	case "strings.TrimSpace":
		note("strings.TrimSpace removes spaces at both ends")
		s := asTerm(args[0])
		r := mk("uf$trimspace", SStr, s)
		// the text between the first and the last byte that is no space (bytes above 127 may belong to a space)
		lo, hi := mk("uf$trimlo", SInt, s), mk("uf$trimhi", SInt, s)
		sp := func(c *Term) *Term { return Or(Eq(c, I(32)), And(Le(I(9), c), Le(c, I(13)))) }
		i := BVar("i", SInt)
		st.assume(And(Le(I(0), lo), Le(lo, hi), Le(hi, Slen(s)), Eq(Slen(r), Sub(hi, lo))))
		st.assume(Forall([]*Term{i}, [][]*Term{{Sat(r, i)}}, Imp(And(Le(I(0), i), Lt(i, Sub(hi, lo))), Eq(Sat(r, i), Sat(s, Add(lo, i))))))
		st.assume(Forall([]*Term{i}, [][]*Term{{Sat(s, i)}}, Imp(And(Le(I(0), i), Or(Lt(i, lo), Le(hi, i)), Lt(i, Slen(s))), Or(sp(Sat(s, i)), Le(I(128), Sat(s, i))))))
		st.assume(Imp(Lt(lo, hi), And(Not(sp(Sat(s, lo))), Not(sp(Sat(s, Sub(hi, I(1))))))))
		for _, p := range []*Term{I(0), I(1), Sub(Slen(s), I(1))} { // ground terms for the facts above
			st.assume(Imp(And(Le(I(0), p), Lt(p, Slen(s))), And(Le(I(0), Sat(s, p)), Lt(Sat(s, p), I(256)))))
		}
		return done(r)
	case "strings.Fields", "strings.Split":
		note("strings.Fields/Split (uninterpreted functions of their arguments)")
		ts := []*Term{asTerm(args[0])}
		nm := "fields"
		if name == "strings.Split" {
			nm = "split"
			ts = append(ts, asTerm(args[1]))
		}
		n := mk("uf$"+nm+"len", SInt, ts...)
		st.assume(And(Le(I(0), n), Le(n, IntBig(maxLen))))
		if nm == "split" {
			st.assume(Le(I(1), n))
		}
		et := types.Typ[types.String]
		r := x.makeSlice(st, et, n, n)
		c := Fresh("parts", arrSort(SInt, SStr))
		i := BVar("i", SInt)
		sel := Select(c, i)
		st.assume(Forall([]*Term{i}, [][]*Term{{sel}}, Eq(sel, mk("uf$"+nm+"at", SStr, append(append([]*Term{}, ts...), i)...))))
		setContentH(st.heap, r.arr, et, c)
		return done(r)
	case "errors.New":
		a := x.allocRaw(st)
		t := types.NewPointer(fn.Signature.Results().At(0).Type())
		return done(mk("iface_a", SIface, I(int64(typeTag(t))), a))
	case "errors.Is":
		note("errors.Is (reflexive; false on nil)")
		a, b := asTerm(args[0]), asTerm(args[1])
		r := mk("uf$errorsis", SBool, a, b)
		st.assume(Imp(Eq(a, b), r))
		st.assume(Imp(And(Eq(a, NilIface), Ne(b, NilIface)), Not(r)))
		return done(r)
	case "unicode.IsControl":
		r := asTerm(args[0])
		note("unicode.IsControl/IsSpace (exact on Latin-1)")
		return done(Or(And(Le(I(0), r), Lt(r, I(32))), And(Le(I(127), r), Lt(r, I(160)))))
	case "unicode.IsSpace":
		r := asTerm(args[0])
		note("unicode.IsControl/IsSpace (exact on Latin-1)")
		return done(Or(And(Le(I(9), r), Le(r, I(13))), Eq(r, I(32)), Eq(r, I(0x85)), Eq(r, I(0xA0)), And(Lt(I(255), r), mk("uf$isspace", SBool, r))))
	}
	if strings.HasPrefix(name, "(*sync/atomic.") {
		return x.atomicModel(st, fn, name, args, pos, k)
	}
	if fn.Name() == "init" && !inRepo(fn) {
		return done(&TupleV{})
	}
	return false
}

func unboxAddr(i *Term) *Term {
	if i.op == "iface_a" {
		return i.args[1]
	}
	return mk("ipay_a", SAddr, i)
}

func (x *Exec) atomicModel(st *State, fn *ssa.Function, name string, args []Val, pos token.Pos, k contFn) bool {
	p := asTerm(args[0])
	x.nonNil(st, p, "atomic", pos)
	rt := deref(fn.Signature.Recv().Type())
	ls, ok := opaqueStruct(rt)
	if !ok || len(ls) != 1 {
		return false
	}
	heap := opaqueHeap(rt, ls[0])
	var vt types.Type
	if ls[0].sort == SInt {
		vt = types.Typ[types.Uint64]
		switch types.Unalias(rt).(*types.Named).Obj().Name() {
		case "Int64":
			vt = types.Typ[types.Int64]
		case "Uint32":
			vt = types.Typ[types.Uint32]
		case "Int32":
			vt = types.Typ[types.Int32]
		}
	}
	x.trustedNotes["sync/atomic: sequentially consistent loads, stores and adds"] = true
	old := x.atomicView(st, p, heap, ls[0].sort, vt)
	switch fn.Name() {
	case "Load":
		k(st, old)
	case "Store":
		x.atomicWrite(st, p, heap, old, asTerm(args[1]), pos)
		k(st, &TupleV{})
	case "Swap":
		x.atomicWrite(st, p, heap, old, asTerm(args[1]), pos)
		k(st, old)
	case "Add":
		n := x.wrap(st, Add(old, asTerm(args[1])), vt)
		x.atomicWrite(st, p, heap, old, n, pos)
		k(st, n)
	case "CompareAndSwap":
		o := st.fork()
		c := Eq(old, asTerm(args[1]))
		st.assume(c)
		o.assume(Not(c))
		f1, f2 := x.feasible2(st, o)
		if f1 {
			x.atomicWrite(st, p, heap, old, asTerm(args[2]), pos)
			k(st, True)
		}
		if f2 {
			k(o, False)
		}
	default:
		return false
	}
	return true
}

// ---------------------------------------------------------------- pools

func (x *Exec) poolPred(st *State, p, v *Term) *Term {
	d := theSpec.preds["poolinv"]
	if d == nil {
		return True
	}
	c := &evalCtx{heap: st.heap, old: st.heap, vars: map[string]SV{"$p": {v: p, sort: SAddr}, "$v": {v: v, sort: SIface}}, pkg: pkgByName(d.pkg), st: st}
	return c.bool(&Expr{kind: "call", s: "poolinv", a: []*Expr{{kind: "ident", s: "$p"}, {kind: "ident", s: "$v"}}})
}

func (x *Exec) poolGet(st *State, p *Term, pos token.Pos) Val {
	x.nonNil(st, p, "pool", pos)
	a := x.allocRaw(st)
	v := Fresh("pooled", SIface)
	st.assume(Ne(v, NilIface))
	st.assume(Imp(mk("is-iface_a", SBool, v), Eq(mk("rid", SInt, mk("ipay_a", SAddr, v)), Rid(a))))
	st.assume(Imp(mk("is-iface_b", SBool, v), Eq(mk("rid", SInt, mk("ipb_arr", SAddr, v)), Rid(a))))
	st.assume(x.poolPred(st, p, v))
	if h, ok := x.ghostTab("pooled"); ok {
		st.heap[h] = Store(st.H(h), unboxAddr(v), False)
	}
	return v
}

func (x *Exec) poolPut(st *State, p, v *Term, pos token.Pos) {
	x.nonNil(st, p, "pool", pos)
	x.obligeConj(st, "pool", "C16", "value given to a pool satisfies the pool's invariant", posOf(pos), x.poolPred(st, p, v))
	if h, ok := x.ghostTab("pooled"); ok {
		a := unboxAddr(v)
		x.oblige(st, "pool", "C16", "value is given back to a pool only once", posOf(pos), Not(Select(st.H(h), a)))
		st.heap[h] = Store(st.H(h), a, True)
	}
}

// storeHook: a function stored as Pool.New makes values satisfying the pool's invariant.
func (x *Exec) storeHook(st *State, p *Term, t types.Type, v Val, pos token.Pos) {
	if theSpec.preds["poolinv"] == nil {
		return
	}
	var pool *Term
	var cv Val
	if fldKey(p) == "sync.Pool.New" {
		pool, cv = p.args[1], v
	} else if isNamed(t, "sync", "Pool") {
		sv, ok := v.(*StructV)
		if !ok {
			return
		}
		pool, cv = p, sv.fs[0]
	} else {
		return
	}
	if pool.op == "root" {
		return // temporary
	}
	if x.fn != nil && x.fn.Name() == "init" && x.fn.Synthetic != "" {
		return // checked as static object
	}
	cl, ok := cv.(*ClosureV)
	if !ok {
		tm := asTerm(cv)
		if tm == FnNil {
			return
		}
		cl, ok = fnConsts[tm.op]
	}
	if !ok || cl.fn == nil {
		x.oblige(st, "pool", "C16", "pool constructor is known", posOf(pos), False)
		return
	}
	st.newPools = append(st.newPools, poolRec{pool, cl})
}

type poolRec struct {
	pool *Term
	cl   *ClosureV
}

// checkPools: constructors stored into pools establish the pool invariants.
func (x *Exec) checkPools(st *State) {
	for _, r := range st.newPools {
		x.checkPool(st, r.pool, r.cl)
	}
}

func (x *Exec) checkPool(st *State, pool *Term, cl *ClosureV) {
	f := st.fork()
	for i, b := range cl.bind {
		if a, ok := b.(*Term); ok && a.sort == SAddr && multiStored(cl.fn, i) {
			et := deref(cl.fn.FreeVars[i].Type())
			nv := freshVal("captured", et)
			f.assumeWF(nv, et)
			storeH(f.heap, a, et, nv)
		}
	}
	seq := freshSeq
	if len(f.frames) == 0 {
		f.frames = []*frame{{fn: cl.fn.Pkg.Func("init"), env: map[ssa.Value]Val{}}}
	}
	x.callFn(f, cl.fn, nil, cl.bind, cl.fn.Pos(), func(s2 *State, res Val) {
		x.obligeConj(s2, "pool", "C16", "pool constructor establishes the pool's invariant", posOf(cl.fn.Pos()), x.poolPred(s2, pool, asTerm(res)))
	})
	freshSeq = seq
}

// staticPools checks the pools of package variables.
func (x *Exec) staticPools(pkg string) {
	for _, e := range staticHeap["F:sync.Pool.New"] {
		if globPkg[e[0]] != pkg {
			continue
		}
		cl := fnConsts[e[1].op]
		if cl == nil || cl.fn == nil {
			x.failOne("pool", "pool constructor is known")
			continue
		}
		x.checkPool(newState(cl.fn.Pkg.Func("init")), e[0], cl)
	}
}

var globPkg = map[*Term]string{}

// multiStored: the captured variable is assigned more than once.
func multiStored(fn *ssa.Function, i int) bool {
	par := fn.Parent()
	if par == nil {
		return false
	}
	for _, b := range par.Blocks {
		for _, ins := range b.Instrs {
			mc, ok := ins.(*ssa.MakeClosure)
			if !ok || mc.Fn != fn {
				continue
			}
			a, ok := mc.Bindings[i].(*ssa.Alloc)
			if !ok {
				return true
			}
			n := 0
			for _, r := range *a.Referrers() {
				switch q := r.(type) {
				case *ssa.Store:
					n++
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.MakeClosure:
					if q.Fn != fn {
						return true
					}
				default:
					return true
				}
			}
			return n > 1
		}
	}
	return true
}
