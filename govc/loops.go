package main

import (
	"fmt"
	"go/types"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loopInst struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	muted  bool
	back   func(st *State, fi int, from *ssa.BasicBlock)
}

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}

func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if r, ok := loopCache[fn]; ok {
		return r
	}
	r := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			body := r[h]
			if body == nil {
				body = map[*ssa.BasicBlock]bool{h: true}
				r[h] = body
			}
			stack := []*ssa.BasicBlock{b}
			for len(stack) > 0 {
				n := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if body[n] {
					continue
				}
				body[n] = true
				stack = append(stack, n.Preds...)
			}
		}
	}
	loopCache[fn] = r
	return r
}

// ---------------------------------------------------------------- atoms

type atomSet struct {
	list []*Term
	seen map[int]bool
}

func (x *Exec) noteAtom(t *Term) {
	if x.atoms == nil {
		return
	}
	var add func(t *Term)
	add = func(t *Term) {
		if x.atoms.seen[t.id] || t.bound {
			return
		}
		x.atoms.seen[t.id] = true
		switch t.op {
		case "not", "and", "or":
			for _, a := range t.args {
				add(a)
			}
		case "<=", "<":
			x.atoms.list = append(x.atoms.list, t)
		case "=":
			if t.args[0].sort == SInt || t.args[0].sort == SAddr {
				x.atoms.list = append(x.atoms.list, t)
			}
		}
	}
	add(t)
}

// newestSym gives the largest fresh sequence number occurring in t.
func newestSym(t *Term) int {
	best := 0
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if len(t.args) == 0 {
			if i := strings.LastIndexByte(t.op, '!'); i >= 0 {
				if n, err := strconv.Atoi(t.op[i+1:]); err == nil && n > best {
					best = n
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	return best
}

// oldestRoot gives the smallest (most negative) allocation number occurring in t.
func oldestRoot(t *Term) int64 {
	var best int64
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == "root" && isInt(t.args[0]) && t.args[0].ival.Int64() < best {
			best = t.args[0].ival.Int64()
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	return best
}

func leavesOfVal(v Val) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *ClosureV:
		return []*Term{fnTerm(x)}
	case *SliceV:
		return []*Term{x.arr, x.off, x.len, x.cap}
	case *StructV:
		var out []*Term
		for _, f := range x.fs {
			out = append(out, leavesOfVal(f)...)
		}
		return out
	case *TupleV:
		var out []*Term
		for _, f := range x.vs {
			out = append(out, leavesOfVal(f)...)
		}
		return out
	}
	return nil
}

// ---------------------------------------------------------------- havoc plans

type heapPlan struct {
	full  bool
	addrs []*Term
}

type loopHead struct {
	st     *State
	vals   []Val
	k      *Term
	heaps  map[string]*Term // full havoc: name -> symbol
	cells  []cellSym        // point havoc
	seq    int              // freshSeq before the head symbols
	alloc  int
	header *ssa.BasicBlock
}

type cellSym struct {
	name string
	addr *Term
	sym  *Term
}

func (st *State) closureFacts(h *Term) {
	if f := closureAxiom(h, I(int64(-st.alloc))); f != nil {
		st.assume(f)
		noteLB(h, int64(-st.alloc))
	}
}

func (st *State) havocHeap(name string) *Term {
	if immutableHeaps[name] {
		return st.H(name)
	}
	n := Fresh("H$"+name, heapArrSort(name))
	st.heap[name] = n
	st.closureFacts(n)
	st.staticFacts(name, n)
	return n
}

func (st *State) ptrFact(s *Term) {
	switch s.sort {
	case SAddr:
		st.assume(Le(I(int64(-st.alloc)), Rid(s)))
		noteLB(s, int64(-st.alloc))
	case arrSort(SInt, SAddr):
		i := BVar("i", SInt)
		sel := Select(s, i)
		st.assume(Forall([]*Term{i}, [][]*Term{{sel}}, Le(I(int64(-st.alloc)), mk("rid", SInt, sel))))
	}
}

func (x *Exec) makeHead(entry *State, fi int, phis []*ssa.Phi, plan map[string]*heapPlan, seq int, reacq []int) *loopHead {
	freshSeq = seq
	st := entry.fork()
	st.alloc += 1000000
	h := &loopHead{st: st, heaps: map[string]*Term{}, seq: seq, alloc: st.alloc}
	for _, p := range phis {
		v := freshVal(p.Comment+"$"+p.Name(), p.Type())
		st.assumeWF(v, p.Type())
		h.vals = append(h.vals, v)
		st.frames[fi].env[p] = v
	}
	h.k = Fresh("iter", SInt)
	st.assume(Le(I(0), h.k))
	var names []string
	for n := range plan {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		p := plan[n]
		if p.full {
			h.heaps[n] = st.havocHeap(n)
			continue
		}
		for _, a := range p.addrs {
			s := Fresh("cell", heapSort[n])
			st.heap[n] = Store(st.H(n), a, s)
			st.ptrFact(s)
			h.cells = append(h.cells, cellSym{n, a, s})
		}
	}
	for _, i := range reacq {
		x.relock(st, i)
	}
	return h
}

// binding maps head symbols to their values in another state.
func (h *loopHead) binding(st *State, vals []Val, k *Term) map[*Term]*Term {
	m := map[*Term]*Term{}
	for i, v := range h.vals {
		a, b := leavesOfVal(v), leavesOfVal(vals[i])
		for j := range a {
			m[a[j]] = b[j]
		}
	}
	for n, s := range h.heaps {
		m[s] = st.H(n)
	}
	for _, c := range h.cells {
		m[c.sym] = Select(st.H(c.name), c.addr)
	}
	m[h.k] = k
	return m
}

type backState struct {
	st   *State
	vals []Val
}

func (x *Exec) bodyRun(h *loopHead, fi int, header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, phis []*ssa.Phi) []backState {
	var backs []backState
	inst := &loopInst{header: header, body: body, muted: true}
	inst.back = func(st *State, fi int, from *ssa.BasicBlock) {
		pi := predIndex(from, header)
		b := backState{st: st}
		for _, p := range phis {
			b.vals = append(b.vals, x.val(st, fi, p.Edges[pi]))
		}
		backs = append(backs, b)
	}
	st := h.st.fork()
	st.frames[fi].loops = append(st.frames[fi].loops, inst)
	x.mute++
	x.run(st, fi, header, 0, func(*State, Val) {})
	x.mute--
	return backs
}

// updatePlan extends the havoc plan with the writes visible at the back edges.
func (x *Exec) updatePlan(plan map[string]*heapPlan, h *loopHead, backs []backState, entry *State) bool {
	changed := false
	for _, b := range backs {
		for name, t := range b.st.heap {
			base := h.st.H(name)
			if t == base {
				continue
			}
			p := plan[name]
			if p == nil {
				p = &heapPlan{}
				plan[name] = p
				changed = true
			}
			if p.full {
				continue
			}
			// nodes of the base chain
			nodes := map[int]int{}
			var chain []*Term
			for n, c := 0, base; ; n++ {
				nodes[c.id] = n
				chain = append(chain, c)
				if c.op != "store" {
					break
				}
				c = c.args[0]
			}
			add := func(a *Term) {
				if oldestRoot(a) < int64(-h.alloc) {
					// allocated inside the body
					if a.op == "root" || a.op == "fld" {
						return
					}
				}
				if newestSym(a) > h.seq || oldestRoot(a) < int64(-entry.alloc) {
					p.full = true
					changed = true
					return
				}
				for _, o := range p.addrs {
					if o == a {
						return
					}
				}
				p.addrs = append(p.addrs, a)
				changed = true
			}
			seen := map[int]bool{}
			var walk func(t *Term)
			walk = func(t *Term) {
				if seen[t.id] || p.full {
					return
				}
				seen[t.id] = true
				if n, ok := nodes[t.id]; ok {
					for i := 0; i < n; i++ {
						add(chain[i].args[1])
					}
					return
				}
				switch t.op {
				case "store":
					add(t.args[1])
					walk(t.args[0])
				case "ite":
					walk(t.args[1])
					walk(t.args[2])
				default:
					p.full = true
					changed = true
				}
			}
			walk(t)
			if len(p.addrs) > 24 && !p.full {
				p.full = true
				changed = true
			}
		}
	}
	return changed
}

type cand struct {
	t   *Term
	src string
}

func (x *Exec) loop(st *State, fi int, from, to *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, k contFn) {
	fr := st.frames[fi]
	if x.unroll > 0 {
		if fr.iters == nil {
			fr.iters = map[*ssa.BasicBlock]int{}
		}
		fr.iters[to]++
		if fr.iters[to] <= x.unroll {
			x.phis(st, fi, from, to)
			x.run(st, fi, to, 0, k)
			return
		}
		x.oblige(st, "bound", "", "unrolling bound sufficient", posOf(to.Instrs[0].Pos()), False)
		return
	}
	pi := predIndex(from, to)
	var phis []*ssa.Phi
	var entryVals []Val
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		entryVals = append(entryVals, x.val(st, fi, p.Edges[pi]))
	}
	pos := loopPos(to, body)
	entry := st
	seq := freshSeq
	plan := map[string]*heapPlan{}
	savedAtoms := x.atoms
	var head *loopHead
	var backs []backState
	var reacq []int // locks dropped and taken again in the body
	for round := 0; ; round++ {
		x.atoms = &atomSet{seen: map[int]bool{}}
		head = x.makeHead(entry, fi, phis, plan, seq, reacq)
		head.header = to
		x.discover++
		backs = x.bodyRun(head, fi, to, body, phis)
		x.discover--
		changed := x.updatePlan(plan, head, backs, entry)
		for i, l := range entry.locks {
			known := false
			for _, j := range reacq {
				known = known || i == j
			}
			for _, b := range backs {
				if !known && i < len(b.st.locks) && b.st.locks[i].gen != head.st.locks[i].gen {
					reacq = append(reacq, i)
					known, changed = true, true
				}
			}
			_ = l
		}
		if !changed {
			break
		}
		if round > 12 {
			unsupported("loop havoc does not stabilise at %s", pos)
		}
	}
	for _, i := range reacq {
		x.settle(entry, i, "loop entry", pos)
	}
	atoms := x.atoms.list
	if savedAtoms != nil {
		for _, a := range atoms {
			if !savedAtoms.seen[a.id] {
				savedAtoms.seen[a.id] = true
				savedAtoms.list = append(savedAtoms.list, a)
			}
		}
	}
	x.atoms = nil
	cands := x.candidates(head, entry, entryVals, backs, phis, atoms, fi)
	if isLight(x.spec, forProp) {
		cands = nil
	}
	// entry check
	eb := head.binding(entry, entryVals, I(0))
	cands = x.filter(cands, entry.facts(), eb, pos, "entry")
	for round := 0; len(cands) > 0; round++ {
		head = x.makeHead(entry, fi, phis, plan, seq, reacq)
		head.header = to
		for _, c := range cands {
			head.st.assume(c.t)
		}
		backs = x.bodyRun(head, fi, to, body, phis)
		n := len(cands)
		for _, b := range backs {
			bb := head.binding(b.st, b.vals, Add(head.k, I(1)))
			cands = x.filter(cands, b.st.facts(), bb, pos, "step")
		}
		if len(cands) == n {
			break
		}
		if round > 40 {
			unsupported("invariant search does not stabilise at %s", pos)
		}
	}
	head = x.makeHead(entry, fi, phis, plan, seq, reacq)
	head.header = to
	for _, c := range cands {
		head.st.assume(c.t)
		if debugOn && x.mute == 0 {
			debugf("  %s inv[%s] %s", pos, c.src, trunc(c.t.String(), 300))
		}
		if x.mute == 0 {
			x.obls = append(x.obls, &Obligation{fn: x.spec.name, kind: "invariant", text: "loop invariant (" + c.src + ")", pos: pos, goal: True, ok: true, engine: "z3-4.8.12"})
		}
	}
	// termination
	if x.spec.flags["terminates"] != "" && x.mute == 0 {
		x.variant(head, to, body, phis, entryVals, atoms, entry, fi, pos)
	}
	x.atoms = savedAtoms
	inst := &loopInst{header: to, body: body}
	nlocks := len(entry.locks)
	inst.back = func(st *State, fi int, from *ssa.BasicBlock) {
		if len(st.locks) != nlocks {
			x.oblige(st, "locks", "", "same locks held at every iteration", pos, False)
		}
		for _, i := range reacq {
			x.settle(st, i, "next iteration", pos)
		}
		x.owedDischarged(st, "next iteration", pos)
	}
	hs := head.st.fork()
	hs.frames[fi].loops = append(hs.frames[fi].loops, inst)
	x.run(hs, fi, to, 0, k)
}

func loopPos(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) string {
	for _, in := range h.Instrs {
		if in.Pos().IsValid() {
			return posOf(in.Pos())
		}
	}
	for b := range body {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return posOf(in.Pos())
			}
		}
	}
	return h.Parent().Name()
}

// filter keeps the candidates that hold in a state.
func (x *Exec) filter(cands []cand, facts []*Term, bind map[*Term]*Term, pos, what string) []cand {
	if len(cands) == 0 {
		return nil
	}
	memo := map[int]*Term{}
	goals := make([]*Term, len(cands))
	for i, c := range cands {
		goals[i] = Subst(c.t, bind, memo)
	}
	for _, f := range facts {
		if f == False {
			return cands
		}
	}
	known := map[int]bool{}
	for _, f := range facts {
		known[f.id] = true
	}
	var open []int
	for i, g := range goals {
		if g == True || known[g.id] {
			continue
		}
		open = append(open, i)
	}
	bad := map[int]bool{}
	if len(open) > 0 {
		queries := make([]string, len(open))
		ch := make(chan int, len(open))
		res := make([]string, len(open))
		for n, i := range open {
			queries[n] = prepare(facts, goals[i])
		}
		for n := range open {
			n := n
			go func() {
				if queries[n] == "" {
					res[n] = "unsat"
				} else {
					q0 := time.Now()
					res[n] = ask(queries[n], 2500)
					if time.Since(q0) < 1500*time.Millisecond {
						ch <- n
						return // saturated
					}
					if src := cands[open[n]].src; res[n] == "unknown" && (src == "frame" || strings.HasPrefix(src, "contract")) {
						res[n] = askNew(queries[n], 3)
					}
				}
				ch <- n
			}()
		}
		for range open {
			<-ch
		}
		for n, i := range open {
			if res[n] != "unsat" {
				bad[i] = true
				if debugOn && strings.HasPrefix(cands[i].src, "contract") {
					debugf("  drop %s %s %s %s\n     goal %s", pos, what, cands[i].src, res[n], trunc(goals[i].String(), 600))
					dropN++
					debugf("     file drop%d", dropN)
					dumpQuery(fmt.Sprintf("drop%d", dropN), queries[n])
				}
			}
		}
	}
	var out []cand
	for i, c := range cands {
		if !bad[i] {
			out = append(out, c)
		}
	}
	return out
}

func (x *Exec) candidates(h *loopHead, entry *State, ev []Val, backs []backState, phis []*ssa.Phi, atoms []*Term, fi int) []cand {
	var out []cand
	seen := map[int]bool{}
	add := func(t *Term, src string) {
		if t == True || t == False || seen[t.id] {
			return
		}
		seen[t.id] = true
		out = append(out, cand{t, src})
	}
	type pair struct {
		sym, ent *Term
		backs    []*Term
	}
	var ints []pair
	for i, v := range h.vals {
		ls, es := leavesOfVal(v), leavesOfVal(ev[i])
		for j, l := range ls {
			p := pair{sym: l, ent: es[j]}
			for _, b := range backs {
				p.backs = append(p.backs, leavesOfVal(b.vals[i])[j])
			}
			if l.sort == SInt {
				ints = append(ints, p)
			} else {
				add(Eq(l, es[j]), "auto")
			}
		}
		if s, ok := v.(*SliceV); ok {
			e := ev[i].(*SliceV)
			add(Eq(Add(s.off, s.len), Add(e.off, e.len)), "auto")
			add(Eq(Add(s.off, s.cap), Add(e.off, e.cap)), "auto")
			add(Or(Eq(s.arr, e.arr), Lt(Rid(s.arr), I(int64(-entry.alloc)))), "auto")
			if p := phis[i]; p != nil {
				_ = p
			}
		}
	}
	for _, c := range h.cells {
		e := Select(entry.H(c.name), c.addr)
		if c.sym.sort == SInt {
			p := pair{sym: c.sym, ent: e}
			for _, b := range backs {
				p.backs = append(p.backs, Select(b.st.H(c.name), c.addr))
			}
			ints = append(ints, p)
		} else if c.sym.sort == SAddr || c.sym.sort == SBool {
			add(Eq(c.sym, e), "auto")
		}
	}
	for _, p := range ints {
		var cs *Term
		same := len(p.backs) > 0
		for _, b := range p.backs {
			for b.op == "ite" && b.args[2].op != "ite" && mentionsMod(b.args[2]) {
				b = b.args[1] // wrap-around arithmetic: guess that it does not wrap
			}
			d := Sub(b, p.sym)
			if !isInt(d) || (cs != nil && cs != d) {
				same = false
				break
			}
			cs = d
		}
		if same {
			add(Eq(p.sym, Add(p.ent, Mul(cs, h.k))), "auto")
		}
		add(Le(p.ent, p.sym), "auto")
		add(Le(p.sym, p.ent), "auto")
	}
	n := 0
	for _, a := range atoms {
		if newestSym(a) > newestHead(h) {
			continue
		}
		if oldestRoot(a) < int64(-entry.alloc) {
			continue
		}
		if n > 60 {
			break
		}
		n++
		l, r := a.args[0], a.args[1]
		if a.op == "=" {
			add(a, "guard")
			add(Not(a), "guard")
			if l.sort == SInt {
				add(Le(l, r), "guard")
				add(Le(r, l), "guard")
			}
			continue
		}
		add(Le(l, r), "guard")
		add(Le(r, l), "guard")
		if a.op == "<" {
			add(Lt(l, r), "guard")
		} else {
			add(Lt(r, l), "guard")
		}
	}
	// contract candidates
	if len(h.heaps) > 0 && x.entry != nil {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(specErr); !ok {
						panic(r)
					}
				}
			}()
			targets, any := x.frameTargets(entry)
			if any {
				return
			}
			var hn []string
			for n := range h.heaps {
				hn = append(hn, n)
			}
			sort.Strings(hn)
			for _, n := range hn {
				s := h.heaps[n]
				cond := x.frameCond(n, targets)
				if cond == nil {
					continue
				}
				ks := heapKey[n]
				if ks == "" {
					ks = SAddr
				}
				a := BVar("a", ks)
				sel := Select(s, a)
				add(Forall([]*Term{a}, [][]*Term{{sel}}, Or(cond(a), Eq(sel, Select(getH(x.entry, n), a)))), "frame")
			}
		}()
	}
	for i, l := range h.st.locks {
		if l.mon == nil || i >= len(entry.locks) || l.gen == entry.locks[i].gen || x.unshared(entry, l.base) {
			continue
		}
		c := x.monCtx(h.st, l.mon, l.base, h.st.heap, entry.heap)
		for _, tr := range l.mon.trans {
			add(c.bool(tr.e), "permitted changes of "+l.mon.name)
		}
	}
	for _, c := range x.spec.get("inv") {
		for _, t := range x.instantiateInv(c, h, entry, ev, phis, fi) {
			var gs []*Term
			splitGoal(t, &gs, True)
			if len(gs) > 60 {
				gs = []*Term{t}
			}
			for _, g := range gs {
				add(g, "contract "+c.pos)
			}
		}
	}
	return out
}

func newestHead(h *loopHead) int {
	b := newestSym(h.k)
	for _, c := range h.cells {
		if n := newestSym(c.sym); n > b {
			b = n
		}
	}
	for _, s := range h.heaps {
		if n := newestSym(s); n > b {
			b = n
		}
	}
	return b
}

// role variables ($x) of an expression
func roleVars(e *Expr, out map[string]bool) {
	if e == nil {
		return
	}
	if e.kind == "ident" && strings.HasPrefix(e.s, "$") && e.s != "$k" {
		out[e.s] = true
	}
	for _, a := range e.a {
		roleVars(a, out)
	}
	for _, p := range e.pats {
		for _, a := range p {
			roleVars(a, out)
		}
	}
}

type roleVal struct {
	head, ent SV
}

func (x *Exec) instantiateInv(c *Clause, h *loopHead, entry *State, ev []Val, phis []*ssa.Phi, fi int) []*Term {
	rv := map[string]bool{}
	roleVars(c.e, rv)
	var names []string
	for n := range rv {
		names = append(names, n)
	}
	sort.Strings(names)
	var vals []roleVal
	for i, p := range phis {
		vals = append(vals, roleVal{SV{v: h.vals[i], t: p.Type(), sort: valSort(h.vals[i]), h: h.st.heap}, SV{v: ev[i], t: p.Type(), sort: valSort(ev[i]), h: entry.heap}})
	}
	// local cells modified in the loop
	for _, cs := range h.cells {
		if strings.HasPrefix(cs.name, "C:") && cs.addr.op == "root" && !strings.Contains(cs.name, "#") {
			vals = append(vals, roleVal{SV{v: cs.sym, sort: cs.sym.sort}, SV{v: Select(entry.H(cs.name), cs.addr), sort: cs.sym.sort}})
		}
	}
	// loop-invariant locals of the enclosing frame: parameters of inlined helpers
	for _, p := range entry.frames[fi].fn.Params {
		v, ok := entry.frames[fi].env[p]
		if !ok {
			continue
		}
		sv := SV{v: v, t: p.Type(), sort: valSort(v)}
		vals = append(vals, roleVal{sv, sv})
	}
	// other loop-invariant values of the enclosing frame
	if len(names) > 0 {
		fr := entry.frames[fi]
		for _, b := range fr.fn.Blocks {
			if b == h.header || !b.Dominates(h.header) {
				continue
			}
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				switch in.(type) {
				case *ssa.Alloc, *ssa.Call, *ssa.Extract, *ssa.MakeSlice, *ssa.Slice, *ssa.UnOp, *ssa.Phi:
				default:
					continue
				}
				switch v.Type().Underlying().(type) {
				case *types.Pointer, *types.Slice:
				default:
					if !usedIn(v, loopsOf(fr.fn)[h.header]) {
						continue
					}
				}
				ev, ok := fr.env[v]
				if !ok || ev == nil {
					continue
				}
				sv := SV{v: ev, t: v.Type(), sort: valSort(ev)}
				vals = append(vals, roleVal{sv, sv})
			}
		}
	}
	var out []*Term
	var rec func(i int, hv, evs map[string]SV)
	rec = func(i int, hv, evs map[string]SV) {
		if i == len(names) {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(specErr); ok {
							if len(names) == 0 && debugOn {
								debugf("inv %s: %v", c.pos, r)
							}
							return
						}
						if _, ok := r.(unsupportedErr); ok {
							return
						}
						if _, ok := r.(*runtime.TypeAssertionError); ok {
							return // roles of an unsuitable kind
						}
						panic(r)
					}
				}()
				ctx := x.ctx(h.st)
				ctx.st = nil
				ctx = ctx.with(hv)
				ctx.vars["$k"] = SV{v: h.k, sort: SInt}
				ctx.pre = entry.heap
				ctx.preVars = evs
				t := ctx.force(ctx.eval(c.e)).term()
				if c.kind == "inv" && t.sort != SBool {
					return
				}
				out = append(out, t)
			}()
			return
		}
		used := map[string]bool{}
		for _, v := range vals {
			key := fmt.Sprint(v.head.v)
			if used[key] {
				continue
			}
			used[key] = true
			dup := false
			for _, o := range hv {
				if o.v == v.head.v {
					dup = true
				}
			}
			if dup {
				continue
			}
			h2, e2 := map[string]SV{}, map[string]SV{}
			for k, o := range hv {
				h2[k] = o
			}
			for k, o := range evs {
				e2[k] = o
			}
			h2[names[i]] = v.head
			e2[names[i]] = v.ent
			rec(i+1, h2, e2)
		}
	}
	rec(0, map[string]SV{}, map[string]SV{})
	return out
}

func mentionsMod(t *Term) bool {
	if t.op == "mod" {
		return true
	}
	for _, a := range t.args {
		if mentionsMod(a) {
			return true
		}
	}
	return false
}

func usedIn(v ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		if body[r.Block()] {
			return true
		}
	}
	return false
}

// variant looks for an expression that decreases on every iteration and is bounded below.
func (x *Exec) variant(h *loopHead, header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, phis []*ssa.Phi, ev []Val, atoms []*Term, entry *State, fi int, pos string) {
	backs := x.bodyRun(h, fi, header, body, phis)
	if len(backs) == 0 {
		return
	}
	var vs []*Term
	for _, c := range x.spec.get("decreases") {
		vs = append(vs, x.instantiateInv(c, h, entry, ev, phis, fi)...)
	}
	for _, v := range h.vals {
		if s, ok := v.(*SliceV); ok {
			vs = append(vs, s.len)
		}
	}
	for _, a := range atoms {
		if (a.op == "<" || a.op == "<=") && newestSym(a) <= newestHead(h) {
			vs = append(vs, Sub(a.args[1], a.args[0]), Sub(a.args[0], a.args[1]))
		}
	}
	for _, v := range vs {
		if v.sort != SInt {
			continue
		}
		ok := true
		for _, b := range backs {
			m := h.binding(b.st, b.vals, Add(h.k, I(1)))
			nv := Subst(v, m, map[int]*Term{})
			if _, r := prove(b.st.facts(), And(Le(I(-1), v), Lt(nv, v)), false); !r {
				ok = false
				break
			}
		}
		if ok {
			x.obls = append(x.obls, &Obligation{fn: x.spec.name, kind: "termination", text: "loop variant " + trunc(v.String(), 80), pos: pos, goal: True, ok: true, engine: "z3-4.8.12"})
			return
		}
	}
	for _, b := range backs {
		x.oblige(b.st, "termination", "", "every iteration of the loop makes progress", pos, False)
	}
}

var dropN int
