package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var (
	globIdx      = map[*ssa.Global]int{}
	globVal      = map[*ssa.Global]Val{}
	staticHeap   = map[string][][2]*Term{} // heap -> (address, value) of static objects
	globalsState = map[string]string{}
)

func globalAddr(g *ssa.Global) *Term {
	n, ok := globIdx[g]
	if !ok {
		n = len(globIdx)
		globIdx[g] = n
	}
	return Root(I(2*staticBase + int64(n)))
}

func loadGlobal(heap map[string]*Term, g *ssa.Global) Val {
	if v, ok := globVal[g]; ok {
		return v
	}
	return loadH(heap, globalAddr(g), deref(g.Type()))
}

// initGlobals evaluates package initialisers.
func initGlobals() {
	for _, p := range thePkgs {
		var names []string
		for n, m := range p.Members {
			if _, ok := m.(*ssa.Global); ok {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			globalAddr(p.Members[n].(*ssa.Global))
		}
	}
	mutable := map[*ssa.Global]bool{}
	for _, fn := range allFuncs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if g, ok := rootGlobal(s.Addr); ok && !(fn.Name() == "init" && fn.Synthetic != "") {
						mutable[g] = true
					}
				}
			}
		}
	}
	next := int64(0)
	for _, p := range thePkgs {
		next += 100000
		initPackage(p, mutable, next)
	}
}

func rootGlobal(v ssa.Value) (*ssa.Global, bool) {
	for {
		switch y := v.(type) {
		case *ssa.Global:
			return y, true
		case *ssa.FieldAddr:
			v = y.X
		default:
			return nil, false
		}
	}
}

func initPackage(p *ssa.Package, mutable map[*ssa.Global]bool, shift int64) {
	fn := p.Func("init")
	if fn == nil {
		return
	}
	fs := &FuncSpec{pkg: p.Pkg.Name(), name: "init", flags: map[string]string{"unshared": "1"}}
	x := newExec(fs, fn)
	x.unroll = 64
	x.mute = 1
	var final *State
	n := 0
	saved := freshSeq
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case unsupportedErr:
					globalsState[p.Pkg.Name()] = e.msg
				case specErr:
					globalsState[p.Pkg.Name()] = e.msg
				default:
					panic(r)
				}
				n = 2
			}
		}()
		st := newState(fn)
		for _, nm := range sortedMembers(p) {
			if g, ok := p.Members[nm].(*ssa.Global); ok {
				storeH(st.heap, globalAddr(g), deref(g.Type()), zeroVal(deref(g.Type())))
			}
		}
		x.entry = snapHeap(st.heap)
		x.run(st, 0, fn.Blocks[0], 0, func(st *State, _ Val) { final = st; n++ })
	}()
	freshSeq = saved
	if n != 1 {
		if globalsState[p.Pkg.Name()] == "" {
			globalsState[p.Pkg.Name()] = "initialiser has several paths"
		}
		return
	}
	memo := map[int]*Term{}
	ren := func(t *Term) *Term { return renameStatic(t, shift, memo) }
	for _, nm := range sortedMembers(p) {
		g, ok := p.Members[nm].(*ssa.Global)
		if !ok || mutable[g] || g.Name() == "init$guard" {
			continue
		}
		v := loadH(final.heap, globalAddr(g), deref(g.Type()))
		globVal[g] = mapVal(v, ren)
	}
	// static objects
	var hs []string
	for name := range final.heap {
		hs = append(hs, name)
	}
	sort.Strings(hs)
	for _, name := range hs {
		h := final.heap[name]
		seen := map[int]bool{}
		var add func(t *Term)
		add = func(t *Term) {
			for t.op == "store" {
				a := t.args[1]
				if !seen[a.id] {
					seen[a.id] = true
					if g := globOf(a); g != nil && mutable[g] {
						t = t.args[0]
						continue
					}
					ra := ren(a)
					if ra.sort == SAddr && isCtor(ra) {
						globPkg[ra] = p.Pkg.Name()
						staticHeap[name] = append(staticHeap[name], [2]*Term{ra, ren(Select(h, a))})
					}
				}
				t = t.args[0]
			}
		}
		add(h)
	}
	for _, f := range final.facts() {
		r := ren(f)
		if k := maxStatic(r); k > 0 {
			addAxiom(staticKey(k), r)
		}
	}
	for _, name := range sortedKeys(staticHeap) {
		b := heapBase(name)
		for _, e := range staticHeap[name] {
			if k := maxStatic(e[0]); k > 0 {
				addAxiom(staticKey(k), mk("=", SBool, mk("select", elemSort(b.sort), b, e[0]), e[1]))
			}
		}
	}
}

func sortedKeys(m map[string][][2]*Term) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func globOf(a *Term) *ssa.Global {
	r := Rid(a)
	if !isInt(r) {
		return nil
	}
	for g, n := range globIdx {
		if r.ival.Int64() == 2*staticBase+int64(n) {
			return g
		}
	}
	return nil
}

func staticKey(k int64) string { return "static$" + I(k).ival.String() }

func maxStatic(t *Term) int64 {
	var best int64
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == "root" && isInt(t.args[0]) && t.args[0].ival.Int64() >= staticBase && t.args[0].ival.Int64() > best {
			best = t.args[0].ival.Int64()
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	return best
}

func mapVal(v Val, f func(*Term) *Term) Val {
	switch x := v.(type) {
	case *Term:
		return f(x)
	case *SliceV:
		return &SliceV{arr: f(x.arr), off: f(x.off), len: f(x.len), cap: f(x.cap), et: x.et}
	case *StructV:
		r := &StructV{t: x.t}
		for _, y := range x.fs {
			r.fs = append(r.fs, mapVal(y, f))
		}
		return r
	}
	return v
}

// renameStatic turns allocations of the initialiser into static objects.
func renameStatic(t *Term, shift int64, memo map[int]*Term) *Term {
	if r, ok := memo[t.id]; ok {
		return r
	}
	var r *Term
	switch {
	case t.op == "root" && isInt(t.args[0]) && t.args[0].ival.Sign() < 0:
		r = Root(I(staticBase + shift - t.args[0].ival.Int64()))
	case t.sort == SFn && len(t.args) == 0 && fnConsts[t.op] != nil && len(fnConsts[t.op].bind) > 0:
		c := fnConsts[t.op]
		n := &ClosureV{fn: c.fn}
		for _, b := range c.bind {
			n.bind = append(n.bind, mapVal(b, func(u *Term) *Term { return renameStatic(u, shift, memo) }))
		}
		r = fnTerm(n)
	case len(t.args) == 0 && !isBV(t) && strings.Contains(t.op, "!"):
		r = Const(strings.ReplaceAll(t.op, "!", "$g")+I(shift).ival.String(), t.sort)
	case t.op == "forall":
		var pats [][]*Term
		for _, p := range t.pats {
			var np []*Term
			for _, y := range p {
				np = append(np, renameStatic(y, shift, memo))
			}
			pats = append(pats, np)
		}
		r = Forall(t.bvs, pats, renameStatic(t.args[0], shift, memo))
	case len(t.args) == 0:
		r = t
	default:
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = renameStatic(a, shift, memo)
		}
		r = rebuild(t, na)
	}
	memo[t.id] = r
	return r
}

// staticFacts: a forgotten heap still holds the static objects.
func (st *State) staticFacts(name string, h *Term) {
	for _, e := range staticHeap[name] {
		st.assume(mk("=", SBool, mk("select", elemSort(h.sort), h, e[0]), e[1]))
	}
}

// ---------------------------------------------------------------- escaping field addresses

func computeAddrTaken() {
	seen := map[string]bool{}
	for _, fn := range allFuncs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				t := deref(fa.X.Type())
				s, _ := structOf(t)
				ft := s.Field(fa.Field).Type()
				if _, ok := structOf(ft); ok {
					continue
				}
				if fa.Referrers() == nil {
					continue
				}
				esc := false
				for _, r := range *fa.Referrers() {
					switch q := r.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						if q.Val == fa {
							esc = true
						}
					default:
						esc = true
					}
				}
				k := structKey(t) + "." + s.Field(fa.Field).Name()
				if esc && !seen[k] {
					seen[k] = true
					addrTaken[typeKey(ft)] = append(addrTaken[typeKey(ft)], k)
				}
			}
		}
	}
	for k := range addrTaken {
		sort.Strings(addrTaken[k])
	}
}

func sortedMembers(p *ssa.Package) []string {
	var ns []string
	for n := range p.Members {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}
