package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- indices

var monByMutex = map[string]*Monitor{}
var monByCond = map[string]*Monitor{}
var guardOf = map[string]*Monitor{}
var monRank = map[string]int{}

type volatileDecl struct {
	key, rel, path, mutex string
}

var volatiles = map[string]*volatileDecl{}

func indexMonitors() {
	for i, m := range theSpec.monitors {
		k := m.pkg + "." + m.typ + "."
		monByMutex[k+m.mutex] = m
		monRank[m.name] = i + 1
		for _, f := range m.fields {
			guardOf[k+f] = m
		}
		for _, c := range m.conds {
			monByCond[k+c.cond] = m
		}
	}
	for _, c := range theSpec.checks {
		if c.kind == "volatile" {
			v := &volatileDecl{key: c.args[0], rel: c.args[1]}
			if len(c.args) == 4 {
				v.path, v.mutex = c.args[2], c.args[3]
			} else if len(c.args) == 3 {
				v.mutex = c.args[2]
			}
			volatiles[v.key] = v
		}
	}
}

func (m *Monitor) structType() types.Type {
	return (&evalCtx{pkg: pkgByName(m.pkg)}).goType(m.typ)
}

func pkgByName(n string) *ssa.Package {
	for _, p := range thePkgs {
		if p.Pkg.Name() == n {
			return p
		}
	}
	return nil
}

func fldKey(p *Term) string {
	if p.op != "fld" || !isInt(p.args[0]) {
		return ""
	}
	return fieldNames[p.args[0].ival.Int64()-1]
}

func (m *Monitor) mutexAddr(base *Term) *Term {
	return Fld(fieldIDByName(m.pkg+"."+m.typ, m.mutex), base)
}

// unshared: the object was created in this function and not yet handed to another goroutine.
func (x *Exec) unshared(st *State, base *Term) bool {
	if x.spec.flags["unshared"] != "" {
		return true
	}
	if st.shared {
		return false
	}
	b := base
	for b.op == "fld" {
		b = b.args[1]
	}
	for b.op == "elem" {
		b = b.args[0]
	}
	return b.op == "root" && isInt(b.args[0]) && b.args[0].ival.Int64() < int64(-x.entryAlloc)
}

// ---------------------------------------------------------------- guarded accesses

func (x *Exec) heldCond(st *State, mut *Term) *Term {
	r := False
	for _, l := range st.locks {
		if l.mut == mut {
			return True
		}
		r = Or(r, Eq(l.mut, mut))
	}
	return r
}

func (x *Exec) guard(st *State, p *Term, t types.Type, write bool, pos token.Pos) {
	if p.op == "ite" {
		x.guard(st, p.args[1], t, write, pos)
		x.guard(st, p.args[2], t, write, pos)
		return
	}
	if s, ok := structOf(t); ok {
		if _, op := opaqueStruct(t); !op {
			for i := 0; i < s.NumFields(); i++ {
				if guardOf[structKey(t)+"."+s.Field(i).Name()] != nil {
					x.guard(st, Fld(fieldID(t, i), p), s.Field(i).Type(), write, pos)
				}
			}
		}
		return
	}
	k := fldKey(p)
	if k == "" {
		return
	}
	m := guardOf[k]
	if m == nil {
		return
	}
	if isCondPtr(t) {
		return
	}
	base := p.args[1]
	if x.unshared(st, base) {
		return
	}
	what := "read"
	if write {
		what = "write"
	}
	g := x.heldCond(st, m.mutexAddr(base))
	if g == True {
		return
	}
	x.oblige(st, "guard", "C15", what+" of "+k+" needs "+m.typ+"."+m.mutex, posOf(pos), g)
}

// guardElem: elements of a slice kept in a protected field.
func (x *Exec) guardElem(st *State, s *SliceV, pos token.Pos) {
	a := s.arr
	if a.op != "select" {
		return
	}
	r := a.args[0]
	for r.op == "store" {
		r = r.args[0]
	}
	for k, m := range guardOf {
		hn := sanitize("F:" + k + "#arr")
		if strings.Contains(r.op, hn) {
			base := a.args[1]
			if x.unshared(st, base) {
				return
			}
			g := x.heldCond(st, m.mutexAddr(base))
			if g == True {
				return
			}
			x.oblige(st, "guard", "C15", "element of "+k+" needs "+m.typ+"."+m.mutex, posOf(pos), g)
		}
	}
}

func (x *Exec) condStored(st *State, p *Term, v Val, pos token.Pos) {
	m := monByCond[fldKey(p)]
	t := asTerm(v)
	if m == nil {
		return
	}
	g := False
	if t.op == "newcond" {
		g = Eq(t.args[0], m.mutexAddr(p.args[1]))
	}
	x.oblige(st, "condlock", "C14", "condition "+fldKey(p)+" is tied to "+m.mutex, posOf(pos), g)
}

// ---------------------------------------------------------------- lock / unlock

func (x *Exec) monCtx(st *State, m *Monitor, base *Term, heap, old map[string]*Term) *evalCtx {
	c := &evalCtx{heap: heap, old: old, vars: map[string]SV{}, pkg: pkgByName(m.pkg), st: st, oldAlloc: x.entryAlloc}
	c.vars[m.self] = SV{v: base, t: types.NewPointer(m.structType()), sort: SAddr}
	return c
}

// role fields of this function stay put
func (x *Exec) roleStable(m *Monitor, f string) bool {
	for _, r := range x.spec.roles() {
		for _, g := range m.stableF[r] {
			if g == f {
				return true
			}
		}
	}
	return false
}

func (fs *FuncSpec) roles() []string {
	if fs.flags["role"] == "" {
		return nil
	}
	return strings.Split(fs.flags["role"], ",")
}

func (fs *FuncSpec) hasRole(r string) bool {
	for _, q := range fs.roles() {
		if q == r {
			return true
		}
	}
	return false
}

func (x *Exec) roleGhost(m *Monitor) map[string]bool {
	out := map[string]bool{}
	for _, r := range x.spec.roles() {
		for _, g := range m.stableF[r] {
			out[g] = true
		}
	}
	return out
}

func (x *Exec) acquire(st *State, m *Monitor, mut, base *Term) {
	pre := snapHeap(st.heap)
	if !x.unshared(st, base) {
		st.alloc += 1000000
		t := m.structType()
		s, _ := structOf(t)
		for _, f := range m.fields {
			if x.roleStable(m, f) {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() != f || isCondPtr(s.Field(i).Type()) {
					continue
				}
				for _, ft := range addrTargets(Fld(fieldID(t, i), base), s.Field(i).Type()) {
					x.havocTarget(st, ft)
				}
				// well-formedness of the new value
				c := x.monCtx(st, m, base, st.heap, nil)
				c.eval(&Expr{kind: "field", s: f, a: []*Expr{{kind: "ident", s: m.self}}})
			}
		}
		mc := x.monCtx(st, m, base, pre, pre)
		for _, h := range m.havoc {
			if h.arg == "all" && x.roleStable(m, h.label) || h.arg == "" && h.e.kind == "call" && x.roleStable(m, h.e.s) {
				continue
			}
			if h.arg == "all" {
				for _, ft := range x.modTargets(mc, &Clause{kind: "modifies", arg: "all", label: h.label, e: h.e}) {
					x.havocTarget(st, ft)
				}
				continue
			}
			for _, ft := range x.lvalTargets(mc, h.e) {
				x.havocTarget(st, ft)
			}
		}
		x.havocVolatiles(st, m.pkg+"."+m.typ+"."+m.mutex, base)
		c := x.monCtx(st, m, base, st.heap, pre)
		for _, tr := range m.trans {
			st.assume(c.bool(tr.e))
		}
		for _, iv := range m.invs {
			st.assume(c.bool(iv.e))
		}
		for _, s := range x.spec.get("stable") {
			a, b := x.ctx(st), x.ctx(st)
			a.heap, a.st = pre, nil
			b.heap = st.heap
			st.assume(Imp(a.bool(s.e), b.bool(s.e)))
			x.trustedNotes["not changed by other goroutines in "+x.spec.name+": "+s.text] = true
		}
	}
	x.lockGen++
	st.locks = append(st.locks, &lockHeld{mut: mut, mon: m, base: base, snap: snapHeap(st.heap), gen: x.lockGen})
}

func (x *Exec) mutexMonitor(mut *Term) (*Monitor, *Term) {
	if k := fldKey(mut); k != "" {
		return monByMutex[k], mut.args[1]
	}
	return nil, nil
}

func (x *Exec) lock(st *State, mut *Term, pos token.Pos) {
	m, base := x.mutexMonitor(mut)
	rank := 0
	if m != nil {
		rank = monRank[m.name]
	}
	for _, l := range st.locks {
		x.oblige(st, "lock", "C14", "mutex is not already held by this goroutine", posOf(pos), Ne(l.mut, mut))
		lr := 0
		if l.mon != nil {
			lr = monRank[l.mon.name]
		}
		if !(rank > lr && lr > 0) {
			x.oblige(st, "lockorder", "C14", "locks are taken in one global order", posOf(pos), False)
		}
	}
	st.trace = append(st.trace, "lock@"+posOf(pos))
	if m == nil {
		st.locks = append(st.locks, &lockHeld{mut: mut, snap: snapHeap(st.heap)})
		return
	}
	x.acquire(st, m, mut, base)
}

func (x *Exec) findLock(st *State, mut *Term) int {
	for i, l := range st.locks {
		if l.mut == mut {
			return i
		}
	}
	for i, l := range st.locks {
		if _, ok := prove(st.facts(), Eq(l.mut, mut), false); ok {
			return i
		}
	}
	return -1
}

// release performs the checks and ghost updates at the end of a critical section.
func (x *Exec) release(st *State, l *lockHeld, what, pos string) {
	m := l.mon
	if m == nil {
		return
	}
	unsh := x.unshared(st, l.base)
	for _, a := range x.spec.get("atrelease") {
		fc := x.ctx(st)
		fc.old = l.snap
		fc.heap = st.heap
		x.ghostAssign(st, fc, a)
	}
	c := x.monCtx(st, m, l.base, st.heap, l.snap)
	for _, a := range m.atrel {
		c.heap = st.heap
		x.ghostAssign(st, c, a)
	}
	c = x.monCtx(st, m, l.base, st.heap, l.snap)
	if unsh {
		return
	}
	for _, iv := range m.invs {
		if iv.label == "assume" {
			x.trustedNotes["assumed of "+m.name+": "+iv.text] = true
			st.assume(c.bool(iv.e))
			continue
		}
		x.obligeConj(st, "monitor", iv.label, "lock invariant of "+m.name+" at "+what+": "+iv.text, pos, c.bool(iv.e))
	}
	for _, tr := range m.trans {
		x.obligeConj(st, "monitor", tr.label, "permitted change of "+m.name+" at "+what+": "+tr.text, pos, c.bool(tr.e))
	}
	// fields that belong to another role must not change
	for r, fs := range m.stableF {
		if x.spec.hasRole(r) {
			continue
		}
		for _, f := range fs {
			if x.roleStable(m, f) {
				continue
			}
			var g *Term
			if gd, ok := theSpec.ghosts[f]; ok {
				h := c.ghostHeap(gd)
				g = Eq(Select(getH(l.snap, h), l.base), Select(getH(st.heap, h), l.base))
			} else {
				e := &Expr{kind: "field", s: f, a: []*Expr{{kind: "ident", s: m.self}}}
				n := *c
				n.heap = l.snap
				n.st = nil
				g = valEq(c.force(c.eval(e)).v, n.force(n.eval(e)).v)
			}
			x.oblige(st, "role", "", f+" is only changed by the "+r, pos, g)
		}
	}
	for _, cd := range m.conds {
		need := x.condNeed(st, m, cd, l.base, l.snap, st.heap)
		if need == False {
			continue
		}
		addr := Fld(fieldIDByName(m.pkg+"."+m.typ, cd.cond), l.base)
		for _, s := range l.signals {
			if s.cond == addr {
				need = And(need, Not(s.when))
			} else if fldKey(s.cond) == fldKey(addr) {
				need = And(need, Not(And(Eq(s.cond, addr), s.when)))
			}
		}
		if need != False {
			st.owed = append(st.owed, &pendingSignal{cond: addr, need: need, name: m.typ + "." + cd.cond, pos: pos})
		}
	}
}

func (x *Exec) condNeed(st *State, m *Monitor, cd MonCond, base *Term, pre, post map[string]*Term) *Term {
	if cd.block == nil {
		return False
	}
	if cd.owes {
		c := x.monCtx(st, m, base, post, pre)
		return c.bool(cd.block)
	}
	a := x.monCtx(st, m, base, pre, pre)
	b := x.monCtx(st, m, base, post, post)
	return And(a.bool(cd.block), Not(b.bool(cd.block)))
}

func (x *Exec) unlock(st *State, mut *Term, pos token.Pos) {
	i := x.findLock(st, mut)
	if i < 0 {
		x.oblige(st, "lock", "C14", "unlock of a mutex that is held", posOf(pos), False)
		return
	}
	l := st.locks[i]
	st.locks = append(append([]*lockHeld{}, st.locks[:i]...), st.locks[i+1:]...)
	x.release(st, l, "unlock", posOf(pos))
	st.trace = append(st.trace, "unlock@"+posOf(pos))
}

func (x *Exec) condWait(st *State, cond *Term, pos token.Pos) {
	m := monByCond[fldKey(cond)]
	if m == nil {
		x.oblige(st, "wait", "C14", "wait on a condition without declared blocking state", posOf(pos), False)
		return
	}
	base := cond.args[1]
	mut := m.mutexAddr(base)
	i := x.findLock(st, mut)
	if i < 0 {
		x.oblige(st, "wait", "C14", "wait holds the mutex of its condition", posOf(pos), False)
		return
	}
	if len(st.locks) > 1 {
		x.oblige(st, "wait", "C14", "no other lock is held while waiting", posOf(pos), False)
	}
	l := st.locks[i]
	for _, cd := range m.conds {
		if cd.cond != fieldNames[cond.args[0].ival.Int64()-1][len(m.pkg+"."+m.typ)+1:] {
			continue
		}
		if cd.block != nil && !cd.owes {
			c := x.monCtx(st, m, base, st.heap, st.heap)
			x.oblige(st, "wait", "C14", "sleeps only while blocked: "+cd.text, posOf(pos), c.bool(cd.block))
		}
	}
	for _, w := range x.spec.get("waits") {
		x.oblige(st, "wait", "C14", "sleeps only while blocked: "+w.text, posOf(pos), x.ctx(st).bool(w.e))
	}
	st.locks = append(append([]*lockHeld{}, st.locks[:i]...), st.locks[i+1:]...)
	x.release(st, l, "wait", posOf(pos))
	x.owedDischarged(st, "wait", posOf(pos))
	x.acquire(st, m, mut, base)
	st.trace = append(st.trace, "wait@"+posOf(pos))
}

func (x *Exec) condSignal(st *State, cond, when *Term) {
	var rest []*pendingSignal
	for _, o := range st.owed {
		n := *o
		n.need = And(o.need, Or(Ne(o.cond, cond), Not(when)))
		if n.need == False {
			continue
		}
		rest = append(rest, &n)
	}
	st.owed = rest
	for i, l := range st.locks {
		n := *l
		n.signals = append(append([]sigRec{}, l.signals...), sigRec{cond, when})
		ls := append([]*lockHeld{}, st.locks...)
		ls[i] = &n
		st.locks = ls
	}
}

// promisedSignals checks the signals a contract promises while a lock is held.
func (x *Exec) promisedSignals(st *State, c *evalCtx) {
	for _, s := range x.spec.get("signals") {
		addr := asTerm(c.force(c.eval(s.e)).v)
		w := True
		if s.cond != nil {
			w = c.bool(s.cond)
		}
		got := False
		for _, l := range st.locks {
			for _, g := range l.signals {
				got = Or(got, And(Eq(g.cond, addr), g.when))
			}
		}
		x.oblige(st, "wakeup", "C14", "signals "+s.text, s.pos, Imp(w, got))
	}
}

func (x *Exec) owedDischarged(st *State, what, pos string) {
	for _, o := range st.owed {
		x.oblige(st, "wakeup", "C14", "a waiter unblocked at "+o.pos+" is woken ("+o.name+") before "+what, pos, Not(o.need))
	}
	st.owed = nil
}

func (x *Exec) blocking(st *State, what, pos string) {
	if len(st.locks) > 0 {
		x.oblige(st, "blocking", "C14", "no lock is held at a blocking operation: "+what, pos, False)
	}
	x.owedDischarged(st, what, pos)
}

// lockOrder checks a call under contract against the locks it takes.
func (x *Exec) lockOrder(st *State, fs *FuncSpec, fn *ssa.Function, pos token.Pos) {
	if fn == nil {
		return
	}
	ls, blocks := lockSet(fn)
	if blocks {
		x.blocking(st, "call of "+fs.name, posOf(pos))
	}
	for _, l := range st.locks {
		lr := 0
		if l.mon != nil {
			lr = monRank[l.mon.name]
		}
		for k := range ls {
			r := 0
			if m := monByMutex[k]; m != nil {
				r = monRank[m.name]
			}
			if !(r > lr && lr > 0) {
				x.oblige(st, "lockorder", "C14", "locks are taken in one global order (call of "+fs.name+" takes "+k+")", posOf(pos), False)
			}
		}
	}
}

// ---------------------------------------------------------------- static lock sets

type lockInfo struct {
	locks  map[string]bool
	blocks bool
}

var lockSets = map[*ssa.Function]*lockInfo{}

func lockSet(fn *ssa.Function) (map[string]bool, bool) {
	li := lockSetRec(fn, map[*ssa.Function]bool{})
	return li.locks, li.blocks
}

func lockSetRec(fn *ssa.Function, active map[*ssa.Function]bool) *lockInfo {
	if li, ok := lockSets[fn]; ok {
		return li
	}
	li := &lockInfo{locks: map[string]bool{}}
	if active[fn] {
		return li
	}
	active[fn] = true
	merge := func(f *ssa.Function) {
		if f == nil || !inRepo(f) {
			return
		}
		o := lockSetRec(f, active)
		for k := range o.locks {
			li.locks[k] = true
		}
		li.blocks = li.blocks || o.blocks
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			var c *ssa.CallCommon
			switch in := ins.(type) {
			case *ssa.Call:
				c = in.Common()
			case *ssa.Defer:
				c = in.Common()
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					li.blocks = true
				}
			case *ssa.Select:
				if in.Blocking {
					li.blocks = true
				}
			}
			if c == nil || c.IsInvoke() {
				continue
			}
			f := c.StaticCallee()
			if f == nil {
				continue
			}
			switch f.String() {
			case "(*sync.Mutex).Lock":
				if fa, ok := c.Args[0].(*ssa.FieldAddr); ok {
					t := deref(fa.X.Type())
					s, _ := structOf(t)
					li.locks[structKey(t)+"."+s.Field(fa.Field).Name()] = true
				} else {
					li.locks["?"] = true
				}
			case "(*sync.Cond).Wait", "(*sync.WaitGroup).Wait":
				li.blocks = true
			default:
				merge(f)
			}
		}
	}
	delete(active, fn)
	lockSets[fn] = li
	return li
}

// ---------------------------------------------------------------- ghost assignment

func (x *Exec) ghostAssign(st *State, c *evalCtx, a *Clause) {
	if a.arg != "" { // for every index
		if a.lhs.kind != "index" || a.lhs.a[1].kind != "ident" || a.lhs.a[1].s != a.arg {
			serr(a.lhs, "ghost assignment for all "+a.arg)
		}
		k := BVar(a.arg, SInt)
		n := c.with(map[string]SV{a.arg: {v: k, sort: SInt}})
		n.st = nil
		cond := True
		if a.cond != nil {
			cond = n.bool(a.cond)
		}
		v := n.force(n.eval(a.e)).term()
		base := c.force(c.eval(a.lhs.a[0])).term()
		g := Fresh("ghostarr", base.sort)
		sel := Select(g, k)
		st.assume(Forall([]*Term{k}, [][]*Term{{sel}}, Eq(sel, Ite(cond, v, Select(base, k)))))
		x.ghostSet(st, c, a.lhs.a[0], g, True)
		c.heap = st.heap
		return
	}
	cond := True
	if a.cond != nil {
		cond = c.bool(a.cond)
	}
	v := c.force(c.eval(a.e)).term()
	x.ghostSet(st, c, a.lhs, v, cond)
	c.heap = st.heap
}

func (x *Exec) ghostSet(st *State, c *evalCtx, lhs *Expr, v, cond *Term) {
	switch {
	case lhs.kind == "call" && theSpec.ghosts[lhs.s] != nil:
		n := c.ghostHeap(theSpec.ghosts[lhs.s])
		k := c.force(c.eval(lhs.a[0])).term()
		h := st.H(n)
		st.heap[n] = Store(h, k, Ite(cond, v, Select(h, k)))
	case lhs.kind == "index":
		base := c.eval(lhs.a[0]).term()
		i := c.eval(lhs.a[1]).term()
		x.ghostSet(st, c, lhs.a[0], Store(base, i, v), cond)
	default:
		serr(lhs, "ghost assignment target")
	}
}

// ---------------------------------------------------------------- volatile atomics

func (x *Exec) volRel(v *volatileDecl, old, new *Term) *Term {
	switch v.rel {
	case "monotone":
		return And(Le(old, new), Lt(new, IntBig(p2[63])))
	case "sticky":
		return Imp(Ne(old, Null), Eq(new, old))
	case "latch":
		return Imp(old, new)
	case "any":
		return True
	}
	fatal("volatile relation %s", v.rel)
	return nil
}

func (x *Exec) volMutex(st *State, v *volatileDecl, p *Term) *Term {
	if v.mutex == "" {
		return nil
	}
	base := p.args[1]
	if v.path != "" {
		i := strings.LastIndexByte(v.key, '.')
		base = Select(st.H(fieldHeap(v.key[:i]+"."+v.path, leaf{"", SAddr, nil})), base)
	}
	i := strings.LastIndexByte(v.mutex, '.')
	return Fld(fieldIDByName(v.mutex[:i], v.mutex[i+1:]), base)
}

// atomicView gives the current value of an atomic, after interference.
func (x *Exec) atomicView(st *State, p *Term, heap, srt string, t types.Type) *Term {
	old := Select(st.H(heap), p)
	if x.unshared(st, p) {
		if t != nil {
			st.assume(inRange(old, t))
		}
		return old
	}
	v := volatiles[fldKey(p)]
	if v != nil {
		if mut := x.volMutex(st, v, p); mut != nil {
			for _, l := range st.locks {
				if l.mut == mut {
					return old
				}
			}
			for _, l := range st.locks {
				if _, ok := prove(st.facts(), Eq(l.mut, mut), false); ok {
					return old
				}
			}
		}
	}
	n := Fresh("atomic", srt)
	if srt == SAddr {
		st.alloc += 1000000
		st.ptrFact(n)
	}
	if t != nil {
		st.assume(inRange(n, t))
	}
	if v != nil {
		st.assume(x.volRel(v, old, n))
	}
	st.heap[heap] = Store(st.H(heap), p, n)
	return n
}

// atomicWrite stores a new value of an atomic.
func (x *Exec) atomicWrite(st *State, p *Term, heap string, old, new *Term, pos token.Pos) {
	v := volatiles[fldKey(p)]
	if v != nil && !x.unshared(st, p) {
		if mut := x.volMutex(st, v, p); mut != nil {
			x.oblige(st, "guard", "C15", "write of "+v.key+" needs "+v.mutex, posOf(pos), x.heldCond(st, mut))
		}
		if v.rel != "monotone" {
			x.oblige(st, "volatile", "", v.key+" only changes as declared ("+v.rel+")", posOf(pos), x.volRel(v, old, new))
		} else {
			x.oblige(st, "volatile", "", v.key+" never decreases", posOf(pos), Le(old, new))
		}
	}
	st.heap[heap] = Store(st.H(heap), p, new)
}

func (x *Exec) havocVolatiles(st *State, mutexKey string, base *Term) {
	for _, v := range sortedVolatiles() {
		if v.mutex != mutexKey {
			continue
		}
		i := strings.LastIndexByte(v.key, '.')
		t := (&evalCtx{pkg: pkgByName(strings.SplitN(v.key, ".", 2)[0])}).goType(v.key[:i])
		s, _ := structOf(t)
		for j := 0; j < s.NumFields(); j++ {
			if s.Field(j).Name() != v.key[i+1:] {
				continue
			}
			ls, _ := opaqueStruct(s.Field(j).Type())
			heap := opaqueHeap(s.Field(j).Type(), ls[0])
			if v.path == "" {
				p := Fld(fieldID(t, j), base)
				old := Select(st.H(heap), p)
				n := Fresh("vol", ls[0].sort)
				st.heap[heap] = Store(st.H(heap), p, n)
				st.ptrFact(n)
				if ls[0].sort == SInt {
					st.assume(And(Le(I(0), n), Lt(n, IntBig(p2[64]))))
				}
				st.assume(x.volRel(v, old, n))
				continue
			}
			old := st.H(heap)
			n := st.havocHeap(heap)
			a := BVar("a", SAddr)
			sel := Select(n, a)
			isF := And(mk("is-fld", SBool, a), Eq(mk("fid", SInt, a), I(int64(fieldID(t, j)))))
			st.assume(Forall([]*Term{a}, [][]*Term{{sel}}, And(Imp(isF, x.volRel(v, Select(old, a), sel)), Imp(Not(isF), Eq(sel, Select(old, a))))))
		}
	}
}

func sortedVolatiles() []*volatileDecl {
	var out []*volatileDecl
	for _, c := range theSpec.checks {
		if c.kind == "volatile" {
			out = append(out, volatiles[c.args[0]])
		}
	}
	return out
}

// monHeaps: the heaps holding the state a monitor protects.
func (x *Exec) monHeaps(m *Monitor, skipRole bool) map[string]bool {
	out := map[string]bool{}
	t := m.structType()
	s, _ := structOf(t)
	for _, f := range m.fields {
		if skipRole && x.roleStable(m, f) {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == f && !isCondPtr(s.Field(i).Type()) {
				for _, ft := range addrTargets(Fld(fieldID(t, i), Root(I(1))), s.Field(i).Type()) {
					out[ft.heap] = true
				}
			}
		}
	}
	cc := x.monCtx(&State{nonnull: map[int]bool{}}, m, Const("frame$self", SAddr), map[string]*Term{}, map[string]*Term{})
	cc.st = nil
	for _, h := range m.havoc {
		if h.arg == "all" && skipRole && h.e != nil {
			continue // functions taking the lock declare these themselves
		}
		if skipRole && h.arg == "" && h.e.kind == "call" && x.roleStable(m, h.e.s) {
			continue
		}
		var ts []frameTarget
		if h.arg == "all" {
			ts = x.modTargets(cc, &Clause{kind: "modifies", arg: "all", label: h.label})
		} else {
			ts = x.lvalTargets(cc, h.e)
		}
		for _, t := range ts {
			out[t.heap] = true
		}
	}
	return out
}

// settle makes sure the state protected by a lock is as it was when the lock was last acquired,
// or else that it could be released now.
func (x *Exec) settle(st *State, i int, what, pos string) {
	l := st.locks[i]
	if l.mon == nil || x.unshared(st, l.base) {
		return
	}
	for n := range x.monHeaps(l.mon, false) {
		if st.H(n) != getH(l.snap, n) {
			x.release(st, l, what, pos)
			return
		}
	}
}

// relock gives the head of a loop, in whose body the lock is dropped and taken again, the state after taking it.
func (x *Exec) relock(st *State, i int) {
	l := st.locks[i]
	x.lockGen++
	ls := append([]*lockHeld{}, st.locks...)
	m := l.mon
	if m != nil && !x.unshared(st, l.base) {
		c := x.monCtx(st, m, l.base, st.heap, st.heap)
		for _, f := range m.fields {
			c.eval(&Expr{kind: "field", s: f, a: []*Expr{{kind: "ident", s: m.self}}})
		}
		for _, iv := range m.invs {
			st.assume(c.bool(iv.e))
		}
	}
	ls[i] = &lockHeld{mut: l.mut, mon: m, base: l.base, snap: snapHeap(st.heap), gen: x.lockGen}
	st.locks = ls
}
