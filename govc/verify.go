package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	theProg  *ssa.Program
	thePkgs  []*ssa.Package
	repoDir  = "/repo"
	allFuncs []*ssa.Function
	funcByID = map[string]*ssa.Function{}
)

func newState(fn *ssa.Function) *State {
	return &State{heap: map[string]*Term{}, nonnull: map[int]bool{}, vars: map[string]Val{}, calls: map[string]int{},
		frames: []*frame{{fn: fn, env: map[ssa.Value]Val{}}}}
}

func setupProgram(dir string) error {
	prog, ps, err := loadProgram(dir)
	if err != nil {
		return err
	}
	theProg = prog
	for _, p := range ps {
		if p != nil && strings.HasPrefix(p.Pkg.Path(), repoPrefix) {
			thePkgs = append(thePkgs, p)
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if inRepo(fn) {
			allFuncs = append(allFuncs, fn)
		}
	}
	sort.Slice(allFuncs, func(i, j int) bool { return allFuncs[i].String() < allFuncs[j].String() })
	for _, fn := range allFuncs {
		if fn.Synthetic != "" && fn.Name() != "init" {
			continue
		}
		funcByID[pkgNameOf(fn)+":"+specName(fn)] = fn
	}
	computeAddrTaken()
	return nil
}

func indexContracts() {
	contractIdx = map[string]*FuncSpec{}
	for _, f := range theSpec.funcs {
		k := f.pkg + ":" + f.name
		if f.extern {
			switch {
			case strings.HasPrefix(f.name, "iface:"), strings.HasPrefix(f.name, "fn:"):
				k = f.name
			default:
				k = "ext:" + f.name
			}
		}
		if contractIdx[k] != nil {
			fatal("%s: duplicate contract for %s", f.pos, k)
		}
		contractIdx[k] = f
	}
}

// ---------------------------------------------------------------- obligations

func splitGoal(t *Term, out *[]*Term, pre *Term) {
	switch {
	case t.op == "and":
		for _, a := range t.args {
			splitGoal(a, out, pre)
		}
	case t.op == "=>":
		splitGoal(t.args[1], out, And(pre, t.args[0]))
	case t.op == "forall":
		var in []*Term
		splitGoal(t.args[0], &in, True)
		for _, g := range in {
			caseSplit(Forall(t.bvs, t.pats, g), pre, 2, out)
		}
	default:
		*out = append(*out, Imp(pre, t))
	}
}

// caseSplit distinguishes whether a quantified index is the one written by a store.
func caseSplit(t, pre *Term, n int, out *[]*Term) {
	if t.op != "forall" || n == 0 {
		*out = append(*out, Imp(pre, t))
		return
	}
	var bv, k *Term
	seen := map[int]bool{}
	var find func(x *Term)
	find = func(x *Term) {
		if bv != nil || seen[x.id] || !x.bound {
			return
		}
		seen[x.id] = true
		if x.op == "forall" {
			return
		}
		if x.op == "select" && x.args[0].op == "store" && x.args[1].sort == SInt && !x.args[0].args[1].bound {
			for _, b := range t.bvs {
				if x.args[1] == b {
					bv, k = b, x.args[0].args[1]
					return
				}
			}
		}
		for _, a := range x.args {
			find(a)
		}
	}
	find(t.args[0])
	if bv == nil {
		*out = append(*out, Imp(pre, t))
		return
	}
	// written index
	m, memo := map[*Term]*Term{bv: k}, map[int]*Term{}
	var rest []*Term
	for _, b := range t.bvs {
		if b != bv {
			rest = append(rest, b)
		}
	}
	body := Subst(t.args[0], m, memo)
	var pats [][]*Term
	touch := []*Term{}
	for _, p := range t.pats {
		var np []*Term
		for _, x := range p {
			y := Subst(x, m, memo)
			if len(rest) > 0 && y.bound {
				np = append(np, y)
			} else if !y.bound && len(y.args) > 0 {
				touch = append(touch, mk("uf$touch_"+sanitize(y.sort), SBool, y))
			}
		}
		if len(np) > 0 {
			pats = append(pats, np)
		}
	}
	caseSplit(Forall(rest, pats, body), And(append([]*Term{pre}, touch...)...), n-1, out)
	// any other index
	memo2 := map[int]*Term{}
	var rw func(x *Term) *Term
	rw = func(x *Term) *Term {
		if !x.bound || len(x.args) == 0 {
			return x
		}
		if r, ok := memo2[x.id]; ok {
			return r
		}
		var r *Term
		if x.op == "forall" {
			r = Forall(x.bvs, x.pats, rw(x.args[0]))
		} else {
			na := make([]*Term, len(x.args))
			for i, a := range x.args {
				na[i] = rw(a)
			}
			if x.op == "select" && na[1] == bv {
				for na[0].op == "store" && na[0].args[1] == k {
					na[0] = na[0].args[0]
				}
			}
			r = rebuild(x, na)
		}
		memo2[x.id] = r
		return r
	}
	caseSplit(Forall(t.bvs, t.pats, Imp(Not(Eq(bv, k)), rw(t.args[0]))), pre, n-1, out)
}

func (x *Exec) obligeConj(st *State, kind, label, text, pos string, t *Term) {
	var gs []*Term
	splitGoal(t, &gs, True)
	if len(gs) == 0 {
		gs = []*Term{True}
	}
	if len(gs) > 120 {
		gs = []*Term{t}
	}
	for _, g := range gs {
		if os.Getenv("GOVC_DEBUG") != "" {
			fmt.Println("GOAL in", text, t.String())
		}
		x.oblige(st, kind, label, text, pos, g)
	}
}

// ---------------------------------------------------------------- a function against its contract

type Result struct {
	Key         string
	Obls        []*OblResult
	Used        []string
	Inlined     []string
	Externs     []string
	Trusted     []string
	Paths       int
	Exits       int
	SolverNS    int64
	Queries     int64
	WallMS      int64
	Unsupported string
	TypeInvs    []string
	Immutables  []string
	ByEngine    map[string]int64
}

type OblResult struct {
	Fn, Kind, Label, Text, Pos, Trace, Engine, Goal string
	OK                                              bool
	N                                               int
	Query                                           string
}

func (x *Exec) failOne(kind, text string) {
	x.obls = append(x.obls, &Obligation{fn: x.spec.name, kind: kind, text: text, goal: False})
}

func verifyFunc(fs *FuncSpec) *Result {
	t0 := time.Now()
	res := &Result{Key: fs.pkg + ":" + fs.name}
	q0, n0 := statTimeNS, statQueries
	var x *Exec
	fn := funcByID[fs.pkg+":"+fs.name]
	if fn == nil {
		res.Obls = []*OblResult{{Fn: fs.name, Kind: "anchor", Text: "function under contract exists in the source", Pos: fs.pos}}
		return res
	}
	freshSeq = 0
	ridLB = map[*Term]int64{}
	usedImm, usedTypeInv = map[string]bool{}, map[string]bool{}
	x = newExec(fs, fn)
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case unsupportedErr:
					res.Unsupported = e.msg
				case specErr:
					res.Unsupported = "contract does not fit the code: " + e.msg
				default:
					panic(r)
				}
				x.mute = 0
				x.failOne("unsupported", res.Unsupported)
			}
		}()
		x.verify()
	}()
	res.Obls = discharge(fs.pkg+":"+fs.name, x.obls)
	for k := range x.used {
		res.Used = append(res.Used, k)
	}
	for k := range x.inlined {
		res.Inlined = append(res.Inlined, k)
	}
	for k := range x.externs {
		res.Externs = append(res.Externs, k)
	}
	for k := range x.trustedNotes {
		res.Trusted = append(res.Trusted, k)
	}
	for k := range usedTypeInv {
		res.TypeInvs = append(res.TypeInvs, k)
	}
	for k := range usedImm {
		res.Immutables = append(res.Immutables, k)
	}
	sort.Strings(res.TypeInvs)
	sort.Strings(res.Immutables)
	sort.Strings(res.Used)
	sort.Strings(res.Inlined)
	sort.Strings(res.Externs)
	sort.Strings(res.Trusted)
	res.Exits = x.exits
	res.SolverNS = statTimeNS - q0
	res.Queries = statQueries - n0
	res.WallMS = time.Since(t0).Milliseconds()
	return res
}

func (x *Exec) verify() {
	fs, fn := x.spec, x.fn
	st := newState(fn)
	if len(fs.flags["unroll"]) > 0 {
		fmt.Sscan(fs.flags["unroll"], &x.unroll)
	}
	x.params = map[string]SV{}
	fr := st.frames[0]
	if fn.Name() == "init" && fn.Synthetic != "" {
		// package variables were evaluated at start-up
		if m := globalsState[fn.Package().Pkg.Name()]; m != "" {
			unsupported("package initialisation: %s", m)
		}
		x.staticPools(fn.Package().Pkg.Name())
		x.exits++
		return
	}
	var args []Val
	for i, p := range fn.Params {
		v := freshVal(p.Name(), p.Type())
		st.assumeWF(v, p.Type())
		fr.env[p] = v
		args = append(args, v)
		if i == 0 && fn.Signature.Recv() != nil {
			if t, ok := v.(*Term); ok && t.sort == SAddr {
				st.assume(Ne(t, Null))
				st.nonnull[t.id] = true
			}
		}
		if _, ok := fs.paramVariadic(i, fn); ok {
			_ = ok
		}
	}
	for _, fv := range fn.FreeVars {
		v := freshVal(fv.Name(), fv.Type())
		st.assumeWF(v, fv.Type())
		fr.env[fv] = v
		if t, ok := v.(*Term); ok && t.sort == SAddr {
			st.assume(Ne(t, Null))
		}
	}
	x.entry = snapHeap(st.heap)
	c := &evalCtx{heap: st.heap, old: st.heap, vars: map[string]SV{}, pkg: x.pkg, st: st}
	bindParams(c, fs, fn, fn.Signature, args)
	for i, fv := range fn.FreeVars {
		_ = i
		v := fr.env[fv]
		if t, ok := v.(*Term); ok && t.sort == SAddr {
			// a captured variable: its value when the closure starts
			et := deref(fv.Type())
			lv := loadH(st.heap, t, et)
			st.assumeWF(lv, et)
			c.vars[fv.Name()] = SV{v: lv, t: et, sort: valSort(lv)}
			continue
		}
		c.vars[fv.Name()] = SV{v: v, t: fv.Type(), sort: valSort(v)}
	}
	x.lets(c, fs)
	x.params = c.vars
	for _, h := range fs.get("holds") {
		for _, m := range theSpec.monitors {
			if m.name == h.arg {
				base := c.eval(h.e).term()
				st.locks = append(st.locks, &lockHeld{mut: m.mutexAddr(base), mon: m, base: base, snap: snapHeap(st.heap)})
			}
		}
	}
	nlocks := len(st.locks)
	for _, r := range fs.get("requires") {
		st.assume(c.bool(r.e))
	}
	x.entry = snapHeap(st.heap)
	if !x.feasible(st) {
		x.failOne("vacuity", "precondition of "+fs.name+" is satisfiable")
		return
	}
	for _, a := range fs.get("atentry") {
		x.ghostAssign(st, x.ctx(st), a)
	}
	live := false
	x.run(st, 0, fn.Blocks[0], 0, func(st *State, res Val) {
		x.exits++
		ctx := x.ctx(st)
		bindResults(ctx, fs, fn.Signature, res)
		for _, a := range fs.get("atexit") {
			ctx.heap = st.heap
			x.ghostAssign(st, ctx, a)
		}
		ctx.heap = st.heap
		for _, e := range fs.get("assume") {
			x.trustedNotes["assumed of "+fs.name+": "+e.text] = true
			st.assume(ctx.bool(e.e))
		}
		x.promisedSignals(st, ctx)
		for _, e := range fs.get("ensures") {
			if e.label == "assume" {
				x.trustedNotes["assumed of "+fs.name+": "+e.text] = true
				continue
			}
			x.obligeConj(st, "ensures", e.label, e.text, e.pos, ctx.bool(e.e))
		}
		if len(st.locks) != nlocks {
			x.oblige(st, "lock", "C14", "every lock taken is released on return", posOf(fn.Pos()), False)
		}
		x.owedDischarged(st, "return", posOf(fn.Pos()))
		x.frame(st)
		x.checkPools(st)
		x.builtCheck(st, "return", posOf(fn.Pos()), nil)
		if !live && x.feasible(st) {
			live = true
		}
	})
	if fs.flags["noreturn"] == "" && !live {
		x.failOne("vacuity", "an execution of "+fs.name+" returns")
	}
}

func (f *FuncSpec) paramVariadic(i int, fn *ssa.Function) (bool, bool) { return false, false }

// frameTargets evaluates the modifies clause in the entry state; any is set when everything may change.
func (x *Exec) frameTargets(st *State) (targets []frameTarget, any bool) {
	c := x.ctx(st)
	c.heap = x.entry
	c.st = nil
	for _, m := range x.spec.get("modifies") {
		for _, t := range x.modTargets(c, m) {
			if t.heap == "*" {
				return nil, true
			}
			targets = append(targets, t)
		}
	}
	return targets, false
}

// frameCond gives the addresses of heap n that may change, or nil when all may.
func (x *Exec) frameCond(n string, targets []frameTarget) func(a *Term) *Term {
	var conds []func(a *Term) *Term
	for _, t := range targets {
		if t.heap != n {
			continue
		}
		t := t
		switch {
		case t.addr != nil:
			conds = append(conds, func(a *Term) *Term { return Eq(a, t.addr) })
		case t.cond != nil:
			conds = append(conds, t.cond)
		default:
			return nil
		}
	}
	ks := heapKey[n]
	return func(a *Term) *Term {
		g := False
		for _, cd := range conds {
			g = Or(g, cd(a))
		}
		if ks == "" || ks == SAddr {
			g = Or(g, Lt(Rid(a), I(int64(-x.entryAlloc))))
			if strings.HasPrefix(n, "E:") {
				g = Or(g, Eq(a, Null)) // nothing lives there
			}
		}
		return g
	}
}

// frame: nothing outside the modifies clause changed.
func (x *Exec) frame(st *State) {
	targets, any := x.frameTargets(st)
	if any {
		return
	}
	skip := x.sharedHeaps()
	var names []string
	for n := range st.heap {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fin, ini := st.H(n), getH(x.entry, n)
		if fin == ini || skip[n] || strings.HasPrefix(n, "O:") {
			continue
		}
		cond := x.frameCond(n, targets)
		if cond == nil || freshOnly(fin, ini, targets, n) {
			continue
		}
		ks := heapKey[n]
		if ks == "" {
			ks = SAddr
		}
		a := Fresh("frame", ks)
		x.oblige(st, "frame", "", "writes to "+strings.TrimPrefix(n, "F:")+" stay inside the modifies clause", posOf(x.fn.Pos()), Or(cond(a), Eq(Select(fin, a), Select(ini, a))))
	}
}

// freshOnly: the heap differs only at objects allocated in this function or listed addresses.
func freshOnly(fin, ini *Term, targets []frameTarget, n string) bool {
	for fin != ini {
		if fin.op != "store" {
			return false
		}
		a := fin.args[1]
		if a.sort != SAddr {
			return false
		}
		ok := false
		if r := Rid(a); isInt(r) && r.ival.Sign() < 0 {
			ok = true
		}
		for _, t := range targets {
			if t.heap == n && t.addr == a {
				ok = true
			}
		}
		if !ok {
			return false
		}
		fin = fin.args[0]
	}
	return true
}

// sharedHeaps: state that other goroutines change anyway; callers never rely on it across calls.
func (x *Exec) sharedHeaps() map[string]bool {
	held := map[string]bool{}
	for _, h := range x.spec.get("holds") {
		held[h.arg] = true
	}
	out := map[string]bool{}
	for _, m := range theSpec.monitors {
		if held[m.name] {
			continue
		}
		for h := range x.monHeaps(m, true) {
			out[h] = true
		}
	}
	return out
}

// ---------------------------------------------------------------- discharging

func discharge(key string, obls []*Obligation) []*OblResult {
	type job struct {
		o    *Obligation
		body string
	}
	out := make([]*OblResult, len(obls))
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	failing.Store(0)
	var tagged bool
	if fs := contractIdx[key]; fs != nil && forProp != "" {
		tagged = hasProp(fs, forProp)
	}
	for i, o := range obls {
		r := &OblResult{Fn: o.fn, Kind: o.kind, Label: o.label, Text: o.text, Pos: o.pos, Trace: o.trace, N: 1}
		out[i] = r
		if o.goal == True {
			r.OK = true
			r.Engine = o.engine
			if r.Engine == "" {
				r.Engine = "simplifier"
			}
			continue
		}
		if o.kind == "unsupported" || o.kind == "vacuity" {
			continue
		}
		if forProp != "" && (!counts(r, forProp, tagged) || isLight(contractIdx[key], forProp) && !lightKinds[o.kind]) {
			continue // decided by the checks of other properties
		}
		body := prepare(o.assume, o.goal)
		r.Goal = trunc(o.goal.String(), 700)
		o.assume = nil
		sem <- struct{}{}
		wg.Add(1)
		go func() {
			defer func() { <-sem; wg.Done() }()
			r.Engine, r.OK = solve(body, true)
			if !r.OK {
				failing.Add(1)
				r.Query = body
			}
		}()
	}
	wg.Wait()
	return out
}

// ---------------------------------------------------------------- lemmas

func lemmaTerm(l *LemmaDef) (params []*Term, body *Term, pats [][]*Term, ctx *evalCtx) {
	c := &evalCtx{pkg: pkgByName(l.pkg), vars: map[string]SV{}}
	for _, p := range l.params {
		srt, t := c.specType(p.typ)
		b := BVar(p.name, srt)
		params = append(params, b)
		c.vars[p.name] = SV{v: b, sort: srt, t: t}
	}
	body = c.bool(l.body)
	for _, p := range l.pats {
		var ts []*Term
		for _, e := range p {
			ts = append(ts, c.force(c.eval(e)).term())
		}
		pats = append(pats, ts)
	}
	return params, body, pats, c
}

func installLemma(l *LemmaDef) {
	params, body, pats, _ := lemmaTerm(l)
	t := Forall(params, pats, body)
	done := map[string]bool{}
	for _, p := range pats {
		// attach to the first uninterpreted symbol of the pattern
		var pick func(t *Term) string
		pick = func(t *Term) string {
			if !builtinOps[t.op] && !isBV(t) && !dtSyms[t.op] && len(t.args) > 0 {
				return t.op
			}
			for _, a := range t.args {
				if s := pick(a); s != "" {
					return s
				}
			}
			return ""
		}
		s := pick(p[0])
		if s == "" {
			fatal("%s: lemma %s has no usable pattern", l.pos, l.name)
		}
		if !done[s] {
			done[s] = true
			addAxiom(s, t)
		}
	}
}

// proveLemma proves a lemma (only earlier lemmas are installed).
func proveLemma(l *LemmaDef) *Result {
	t0 := time.Now()
	res := &Result{Key: "lemma:" + l.name}
	freshSeq = 0
	x := &Exec{spec: &FuncSpec{name: "lemma " + l.name, flags: map[string]string{}}}
	params, body, _, _ := lemmaTerm(l)
	m := map[*Term]*Term{}
	var cs []*Term
	var ind *Term
	var indP *Term
	for i, p := range params {
		c := Fresh(l.params[i].name, p.sort)
		m[p] = c
		cs = append(cs, c)
		if l.params[i].name == l.induct {
			ind, indP = c, p
		}
	}
	st := newState(nil)
	goal := Subst(body, m, map[int]*Term{})
	if l.induct != "" {
		if ind == nil {
			fatal("%s: induction variable %s", l.pos, l.induct)
		}
		// strong hypothesis at n-1, all other parameters universally quantified
		hm := map[*Term]*Term{indP: Sub(ind, I(1))}
		h := Subst(body, hm, map[int]*Term{})
		var ps []*Term
		for _, p := range params {
			if p != indP {
				ps = append(ps, p)
			}
		}
		pats := [][]*Term{}
		_, _, lp, _ := lemmaTerm(l)
		_ = lp
		// instance with the same other parameters, plus the quantified form when patterns allow it
		im := map[*Term]*Term{}
		for k, v := range m {
			im[k] = v
		}
		im[indP] = Sub(ind, I(1))
		hyp := Subst(body, im, map[int]*Term{})
		_ = h
		_ = pats
		_ = ps
		st2 := st.fork()
		st2.assume(Le(ind, I(0)))
		x.oblige(st2, "lemma", "", "base case of "+l.name, l.pos, goal)
		st.assume(Lt(I(0), ind))
		st.assume(hyp)
		x.oblige(st, "lemma", "", "induction step of "+l.name, l.pos, goal)
	} else {
		x.oblige(st, "lemma", "", "lemma "+l.name, l.pos, goal)
	}
	res.Obls = discharge(res.Key, x.obls)
	res.WallMS = time.Since(t0).Milliseconds()
	return res
}

var _ = types.Typ
