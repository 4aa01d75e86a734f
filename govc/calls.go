package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) ctx(st *State) *evalCtx {
	c := &evalCtx{heap: st.heap, old: x.entry, oldAlloc: x.entryAlloc, vars: map[string]SV{}, pkg: x.pkg, st: st}
	for k, v := range x.params {
		c.vars[k] = v
	}
	for k, v := range st.vars {
		c.vars[k] = SV{v: v, sort: valSort(v)}
	}
	return c
}

func inRepo(fn *ssa.Function) bool {
	p := fn.Package()
	if p == nil && fn.Parent() != nil {
		p = fn.Parent().Package()
	}
	return p != nil && strings.HasPrefix(p.Pkg.Path(), repoPrefix)
}

// specName is the name used in contract files.
func specName(fn *ssa.Function) string {
	s := fn.String()
	if fn.Signature.Recv() != nil {
		return fn.RelString(fn.Package().Pkg)
	}
	i := strings.LastIndexByte(s, '.')
	return s[i+1:]
}

func pkgNameOf(fn *ssa.Function) string {
	if fn.Package() != nil {
		return fn.Package().Pkg.Name()
	}
	if fn.Parent() != nil {
		return pkgNameOf(fn.Parent())
	}
	return ""
}

var contractIdx map[string]*FuncSpec

func contractOf(fn *ssa.Function) *FuncSpec {
	if fn.Pkg == nil && fn.Package() == nil {
		return nil
	}
	return contractIdx[pkgNameOf(fn)+":"+specName(fn)]
}

// ---------------------------------------------------------------- calls

func (x *Exec) call(st *State, fi int, ins *ssa.Call, k contFn) {
	c := ins.Common()
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(st, fi, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		k(st, x.builtin(st, fi, b.Name(), c, args, ins.Pos(), ins.Type()))
		return
	}
	if c.IsInvoke() {
		recv := x.val(st, fi, c.Value).(*Term)
		x.invoke(st, c, recv, args, ins.Pos(), k)
		return
	}
	x.callValue(st, x.val(st, fi, c.Value), args, c, ins.Pos(), k)
}

func (x *Exec) callValue(st *State, fv Val, args []Val, c *ssa.CallCommon, pos token.Pos, k contFn) {
	switch f := fv.(type) {
	case *ClosureV:
		if f.fn == nil {
			unsupported("call of bound method value")
		}
		x.callFn(st, f.fn, args, f.bind, pos, k)
		return
	case *Term:
		if cl, ok := fnConsts[f.op]; ok {
			x.callValue(st, cl, args, c, pos, k)
			return
		}
		if f.op == "ite" {
			o := st.fork()
			st.assume(f.args[0])
			o.assume(Not(f.args[0]))
			if x.feasible(st) {
				x.callValue(st, f.args[1], args, c, pos, k)
			}
			if x.feasible(o) {
				x.callValue(o, f.args[2], args, c, pos, k)
			}
			return
		}
		x.safety(st, "call of a nil function", pos, Ne(f, FnNil))
		// call through a function-typed field or parameter: use an assumed contract for its name, if any
		name := fnValueName(c.Value)
		if fs := contractIdx["fn:"+name]; fs != nil {
			x.externs["callback "+name] = true
			x.apply(st, fs, nil, c.Signature(), args, pos, k)
			return
		}
		x.externs["callback "+name+" (unconstrained result, does not touch the state under contract)"] = true
		k(st, x.freshResult(st, c.Signature()))
		return
	}
	unsupported("call of %T", fv)
}

func fnValueName(v ssa.Value) string {
	if n, ok := types.Unalias(v.Type()).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Name() + "." + n.Obj().Name()
	}
	switch y := v.(type) {
	case *ssa.UnOp:
		if fa, ok := y.X.(*ssa.FieldAddr); ok {
			t := deref(fa.X.Type())
			s, _ := structOf(t)
			return typeKey(t) + "." + s.Field(fa.Field).Name()
		}
		if fv, ok := y.X.(*ssa.FreeVar); ok {
			return pkgNameOf(fv.Parent()) + "." + fv.Name()
		}
	case *ssa.Field:
		s, _ := structOf(y.X.Type())
		return typeKey(y.X.Type()) + "." + s.Field(y.Field).Name()
	case *ssa.Parameter:
		return pkgNameOf(y.Parent()) + "." + specName(y.Parent()) + "." + y.Name()
	case *ssa.FreeVar:
		return pkgNameOf(y.Parent()) + "." + y.Name()
	}
	return v.Name()
}

func (x *Exec) freshResult(st *State, sig *types.Signature) Val {
	var r Val
	switch sig.Results().Len() {
	case 0:
		return &TupleV{}
	case 1:
		r = freshVal("res", sig.Results().At(0).Type())
		st.assumeWF(r, sig.Results().At(0).Type())
	default:
		r = freshVal("res", sig.Results())
		st.assumeWF(r, sig.Results())
	}
	return r
}

func (x *Exec) callFn(st *State, fn *ssa.Function, args []Val, bind []Val, pos token.Pos, k contFn) {
	if fs := contractOf(fn); fs != nil && !(fs == x.spec && len(st.frames) == 0) {
		if fs.flags["inline"] == "" {
			x.used[fs.pkg+":"+fs.name] = true
			x.apply(st, fs, fn, fn.Signature, args, pos, k)
			return
		}
	}
	if inRepo(fn) && len(fn.Blocks) > 0 {
		x.inline(st, fn, args, bind, k)
		return
	}
	if fs := contractIdx["ext:"+fn.String()]; fs != nil {
		x.externs[fn.String()+" (assumed contract "+fs.pos+")"] = true
		x.apply(st, fs, fn, fn.Signature, args, pos, k)
		return
	}
	if x.model(st, fn, args, pos, k) {
		return
	}
	if len(fn.Blocks) > 0 && fn.Synthetic != "" && fn.Package() == nil {
		// bound-method and wrapper thunks
		x.inline(st, fn, args, bind, k)
		return
	}
	x.unknownCall(st, fn.String(), fn.Signature, args, k)
}

func (x *Exec) unknownCall(st *State, name string, sig *types.Signature, args []Val, k contFn) {
	x.externs[name+" (unconstrained result; may change slices given to it, does not touch the other state under contract)"] = true
	if !strings.HasPrefix(name, "fmt.") && !strings.HasPrefix(name, "log.") {
		for _, a := range args {
			s, ok := a.(*SliceV)
			if !ok {
				continue
			}
			if _, ok := structOf(s.et); ok {
				unsupported("slice of structs given to %s", name)
			}
			for _, lf := range leavesOf(s.et) {
				x.havocTarget(st, frameTarget{heap: elemHeap(s.et, lf), addr: s.arr})
			}
		}
	}
	k(st, x.freshResult(st, sig))
}

func (x *Exec) inline(st *State, fn *ssa.Function, args []Val, bind []Val, k contFn) {
	if len(st.frames) > x.depthLim {
		unsupported("inlining depth at %s", fn)
	}
	for _, f := range st.frames {
		if f.fn == fn {
			unsupported("recursive call of %s needs a contract", fn)
		}
	}
	if x.mute == 0 {
		x.inlined[fn.String()] = true
	}
	fr := &frame{fn: fn, env: map[ssa.Value]Val{}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		fr.env[v] = bind[i]
	}
	st.frames = append(st.frames, fr)
	fi := len(st.frames) - 1
	x.run(st, fi, fn.Blocks[0], 0, func(st *State, res Val) {
		st.frames = st.frames[:fi]
		k(st, res)
	})
}

func (x *Exec) runDefers(st *State, fi int, k func(st *State)) {
	ds := st.frames[fi].defers
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	st.frames[fi].defers = ds[:len(ds)-1]
	cont := func(st *State, _ Val) { x.runDefers(st, fi, k) }
	if b, ok := d.call.Value.(*ssa.Builtin); ok {
		x.builtin(st, fi, b.Name(), &d.call, d.args, d.ins.Pos(), nil)
		x.runDefers(st, fi, k)
		return
	}
	if d.call.IsInvoke() {
		x.invoke(st, &d.call, d.fn.(*Term), d.args, d.ins.Pos(), cont)
		return
	}
	x.callValue(st, d.fn, d.args, &d.call, d.ins.Pos(), cont)
}

func (x *Exec) goInstr(st *State, fi int, ins *ssa.Go) {
	// the body of the goroutine is verified on its own; objects it can reach become shared
	st.shared = true
	x.builtCheck(st, "go statement", posOf(ins.Pos()), nil)
	if c := ins.Common(); !c.IsInvoke() {
		if cl, ok := x.val(st, fi, c.Value).(*ClosureV); ok && cl.fn != nil {
			if fs := contractOf(cl.fn); fs != nil {
				x.used[fs.pkg+":"+fs.name] = true
				var args []Val
				for _, a := range c.Args {
					args = append(args, x.val(st, fi, a))
				}
				x.requires(st, fs, cl.fn, cl.fn.Signature, args, ins.Pos())
			}
		}
	}
}

// ---------------------------------------------------------------- interface calls

func (x *Exec) invoke(st *State, c *ssa.CallCommon, recv *Term, args []Val, pos token.Pos, k contFn) {
	m := c.Method
	if strings.HasPrefix(recv.op, "iface_") && recv.op != "iface_nil" && isInt(recv.args[0]) {
		t := tagTypes[recv.args[0].ival.Int64()-1]
		fn := theProg.LookupMethod(t, m.Pkg(), m.Name())
		if fn != nil {
			x.callFn(st, fn, append([]Val{unboxVal(recv, t)}, args...), nil, pos, k)
			return
		}
	}
	if recv.op == "ite" {
		o := st.fork()
		st.assume(recv.args[0])
		o.assume(Not(recv.args[0]))
		if x.feasible(st) {
			x.invoke(st, c, recv.args[1], args, pos, k)
		}
		if x.feasible(o) {
			x.invoke(o, c, recv.args[2], args, pos, k)
		}
		return
	}
	x.safety(st, "method call on a nil interface", pos, Ne(recv, NilIface))
	name := ""
	if n, ok := types.Unalias(c.Value.Type()).(*types.Named); ok {
		name = n.Obj().Name()
		if n.Obj().Pkg() != nil {
			name = n.Obj().Pkg().Name() + "." + name
		}
	}
	key := name + "." + m.Name()
	fs := contractIdx["iface:"+key]
	if fs == nil {
		fs = contractIdx["iface:*."+m.Name()]
	}
	if fs != nil {
		x.externs["interface "+key+" (assumed contract "+fs.pos+")"] = true
		x.apply(st, fs, nil, m.Type().(*types.Signature), append([]Val{recv}, args...), pos, k)
		return
	}
	x.externs["interface "+key+" (unconstrained result, does not touch the state under contract)"] = true
	k(st, x.freshResult(st, m.Type().(*types.Signature)))
}

// ---------------------------------------------------------------- contracts at call sites

func (x *Exec) calleeCtx(st *State, fs *FuncSpec, fn *ssa.Function, sig *types.Signature, args []Val) *evalCtx {
	c := &evalCtx{heap: st.heap, old: st.heap, oldAlloc: st.alloc, vars: map[string]SV{}, pkg: x.pkg, st: st}
	for _, p := range thePkgs {
		if p.Pkg.Name() == fs.pkg {
			c.pkg = p
		}
	}
	bindParams(c, fs, fn, sig, args)
	return c
}

func bindParams(c *evalCtx, fs *FuncSpec, fn *ssa.Function, sig *types.Signature, args []Val) {
	i := 0
	bind := func(n string, t types.Type, v Val) {
		if i < len(fs.params) {
			n = fs.params[i]
		}
		if n != "" && n != "_" {
			sv := SV{v: v, t: t, sort: valSort(v)}
			c.vars[n] = sv
		}
		i++
	}
	if fn != nil && len(fn.Params) == len(args) {
		for j, p := range fn.Params {
			bind(p.Name(), p.Type(), args[j])
		}
		return
	}
	j := 0
	if len(args) == sig.Params().Len()+1 {
		// receiver of an interface method
		n := "self"
		v := args[0]
		if len(fs.params) == sig.Params().Len()+1 {
			var rt types.Type
			if fn != nil && sig.Recv() != nil {
				rt = sig.Recv().Type()
			}
			bind(n, rt, v)
		} else {
			c.vars["self"] = SV{v: v, sort: valSort(v)}
		}
		j = 1
	}
	for q := 0; q < sig.Params().Len(); q++ {
		bind(sig.Params().At(q).Name(), sig.Params().At(q).Type(), args[j+q])
	}
}

func bindResults(c *evalCtx, fs *FuncSpec, sig *types.Signature, res Val) {
	n := sig.Results().Len()
	for i := 0; i < n; i++ {
		t := sig.Results().At(i).Type()
		v := res
		if n > 1 {
			v = res.(*TupleV).vs[i]
		}
		name := sig.Results().At(i).Name()
		if i < len(fs.results) {
			name = fs.results[i]
		}
		sv := SV{v: v, t: t, sort: valSort(v)}
		if name != "" && name != "_" {
			c.vars[name] = sv
		}
		c.vars[fmt.Sprintf("result%d", i)] = sv
		if n == 1 {
			c.vars["result"] = sv
		}
	}
}

func (x *Exec) lets(c *evalCtx, fs *FuncSpec) {
	for _, l := range fs.get("let") {
		v := c.force(c.eval(l.e))
		if v.h == nil {
			v.h = c.heap
		}
		c.vars[l.arg] = v
	}
}

func (x *Exec) requires(st *State, fs *FuncSpec, fn *ssa.Function, sig *types.Signature, args []Val, pos token.Pos) *evalCtx {
	c := x.calleeCtx(st, fs, fn, sig, args)
	x.lets(c, fs)
	for _, r := range fs.get("requires") {
		t := c.bool(r.e)
		x.noteAtom(t)
		lab := r.label
		x.obligeConj(st, "requires", lab, "precondition of "+fs.name+": "+r.text, posOf(pos), t)
		st.assume(t)
	}
	return c
}

// apply uses the contract of a callee.
func (x *Exec) apply(st *State, fs *FuncSpec, fn *ssa.Function, sig *types.Signature, args []Val, pos token.Pos, k contFn) {
	if fs.flags["method"] != "" || (fn != nil && fn.Signature.Recv() != nil && len(fn.Params) > 0) {
		if t, ok := args[0].(*Term); ok && t.sort == SAddr && fn != nil {
			x.nonNil(st, t, "receiver of "+fs.name, pos)
		}
	}
	if fs.flags["blocks"] != "" {
		x.blocking(st, "call of "+fs.name, posOf(pos))
	}
	x.lockOrder(st, fs, fn, pos)
	for _, r := range fs.roles() {
		if !x.spec.hasRole(r) && fn != nil {
			x.oblige(st, "role", "", "call of "+fs.name+" belongs to the "+r, posOf(pos), False)
		}
	}
	for _, a := range x.spec.get("atcall") {
		if a.arg != fs.name {
			continue
		}
		ac := x.ctx(st)
		for n, v := range x.calleeCtx(st, fs, fn, sig, args).vars {
			if _, own := x.params[n]; !own {
				ac.vars[n] = v
			}
		}
		x.oblige(st, "call", a.label, "at the call of "+fs.name+": "+a.text, posOf(pos), ac.bool(a.e))
	}
	for _, h := range fs.get("holds") {
		hc := x.calleeCtx(st, fs, fn, sig, args)
		x.lets(hc, fs)
		for _, m := range theSpec.monitors {
			if m.name == h.arg {
				x.oblige(st, "lock", "C15", "call of "+fs.name+" holds "+m.typ+"."+m.mutex, posOf(pos), x.heldCond(st, m.mutexAddr(hc.eval(h.e).term())))
			}
		}
	}
	if len(st.built) > 0 {
		x.builtCheck(st, "call of "+fs.name, posOf(pos), builtArgs(args))
	}
	c := x.requires(st, fs, fn, sig, args, pos)
	pre := snapHeap(st.heap)
	preAlloc := st.alloc
	for _, m := range fs.get("modifies") {
		x.havocItem(st, c, m, pre)
	}
	if fs.flags["pure"] == "" {
		st.alloc += 1000000
	}
	for _, e := range fs.get("modifies") {
		_ = e
	}
	res := x.freshResult(st, sig)
	pc := &evalCtx{heap: st.heap, old: pre, oldAlloc: preAlloc, vars: c.vars, pkg: c.pkg, st: st}
	bindResults(pc, fs, sig, res)
	if fs.flags["newpool"] != "" {
		_ = preAlloc
	}
	for _, e := range fs.get("ensures") {
		st.assume(pc.bool(e.e))
	}
	for _, e := range fs.get("assume") {
		st.assume(pc.bool(e.e))
	}
	for _, e := range fs.get("signals") {
		w := True
		if e.cond != nil {
			w = pc.bool(e.cond)
		}
		x.condSignal(st, asTerm(pc.force(pc.eval(e.e)).v), w)
	}
	for _, e := range fs.get("split") {
		t := pc.bool(e.e)
		o := st.fork()
		st.assume(t)
		o.assume(Not(t))
		f1, f2 := x.feasible2(st, o)
		if f1 {
			x.noReturnCheck(st, k, res)
		}
		if f2 {
			x.noReturnCheck(o, k, res)
		}
		return
	}
	k(st, res)
}

func (x *Exec) noReturnCheck(st *State, k contFn, res Val) { k(st, res) }

// frameTarget describes one item of a modifies clause.
type frameTarget struct {
	heap string
	addr *Term               // single address, or nil
	cond func(a *Term) *Term // addresses allowed (all when nil and addr nil)
}

func (x *Exec) modTargets(c *evalCtx, m *Clause) []frameTarget {
	switch m.arg {
	case "nothing":
		return nil
	case "any":
		return []frameTarget{{heap: "*"}}
	case "all":
		var out []frameTarget
		if g, ok := theSpec.ghosts[m.label]; ok {
			n := c.ghostHeap(g)
			ft := frameTarget{heap: n}
			if m.e != nil {
				ft.cond = x.whereCond(c, m, nil, g)
			}
			return []frameTarget{ft}
		}
		i := strings.LastIndexByte(m.label, '.')
		if i < 0 { // all contents of an element type: all [](T)
			t := c.goType(m.label)
			for _, lf := range leavesOf(t) {
				out = append(out, frameTarget{heap: elemHeap(t, lf)})
			}
			return out
		}
		t := c.goType(m.label[:i])
		s, ok := structOf(t)
		if !ok {
			serr(nil, "modifies all %s", m.label)
		}
		for j := 0; j < s.NumFields(); j++ {
			if s.Field(j).Name() == m.label[i+1:] {
				key := structKey(t) + "." + s.Field(j).Name()
				if ls, ok := opaqueStruct(s.Field(j).Type()); ok {
					id := I(int64(fieldID(t, j)))
					for _, l := range ls {
						out = append(out, frameTarget{heap: opaqueHeap(s.Field(j).Type(), l), cond: func(a *Term) *Term {
							w := True
							if m.e != nil {
								w = x.whereCond(c, m, types.NewPointer(t), nil)(fbase(a))
							}
							return And(isFld(a, id), w)
						}})
					}
					continue
				}
				for _, lf := range leavesOf(s.Field(j).Type()) {
					ft := frameTarget{heap: fieldHeap(key, lf)}
					if m.e != nil {
						ft.cond = x.whereCond(c, m, types.NewPointer(t), nil)
					}
					out = append(out, ft)
				}
			}
		}
		if len(out) == 0 {
			panic(specErr{m.pos + ": no such field " + m.label})
		}
		return out
	}
	return x.lvalTargets(c, m.e)
}

func (x *Exec) whereCond(c *evalCtx, m *Clause, t types.Type, g *GhostDef) func(a *Term) *Term {
	cc := *c
	return func(a *Term) *Term {
		n := cc.with(map[string]SV{"a": {v: a, t: t, sort: a.sort}})
		n.st = nil
		return n.bool(m.e)
	}
}

func (x *Exec) lvalTargets(c *evalCtx, e *Expr) []frameTarget {
	if e.kind == "call" && e.s == "content" {
		v := c.force(c.eval(e.a[0]))
		var out []frameTarget
		if mt := mapTypeOf(v.t); mt != nil && isAddrTerm(v.v) {
			dom, ls := mapLeaves(mt)
			out = append(out, frameTarget{heap: dom, addr: v.term()})
			for _, l := range ls {
				out = append(out, frameTarget{heap: l.heap, addr: v.term()})
			}
			return out
		}
		s := v.v.(*SliceV)
		if _, ok := structOf(s.et); ok {
			serr(e, "content of struct slice")
		}
		for _, lf := range leavesOf(s.et) {
			out = append(out, frameTarget{heap: elemHeap(s.et, lf), addr: s.arr})
		}
		return out
	}
	if e.kind == "call" {
		if g, ok := theSpec.ghosts[e.s]; ok {
			return []frameTarget{{heap: c.ghostHeap(g), addr: c.force(c.eval(e.a[0])).term()}}
		}
	}
	v := c.eval(e)
	if v.addr == nil {
		serr(e, "modifies: not an lvalue")
	}
	return addrTargets(v.addr, v.t)
}

func addrTargets(p *Term, t types.Type) []frameTarget {
	var out []frameTarget
	if ls, ok := opaqueStruct(t); ok {
		for _, l := range ls {
			out = append(out, frameTarget{heap: opaqueHeap(t, l), addr: p})
		}
		return out
	}
	if s, ok := structOf(t); ok {
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if _, ok := structOf(ft); ok {
				out = append(out, addrTargets(Fld(fieldID(t, i), p), ft)...)
				continue
			}
			if isCondPtr(ft) {
				continue
			}
			key := structKey(t) + "." + s.Field(i).Name()
			for _, lf := range leavesOf(ft) {
				out = append(out, frameTarget{heap: fieldHeap(key, lf), addr: p})
			}
		}
		return out
	}
	for _, l := range resolveLoc(p, t) {
		for _, lf := range leavesOf(t) {
			switch l.kind {
			case locField:
				out = append(out, frameTarget{heap: fieldHeap(l.key, lf), addr: l.base})
			case locElem:
				out = append(out, frameTarget{heap: elemHeap(t, lf), addr: l.base})
			case locCell:
				out = append(out, frameTarget{heap: cellHeap(t, lf), addr: l.base})
			}
		}
	}
	return out
}

func (x *Exec) havocItem(st *State, c *evalCtx, m *Clause, pre map[string]*Term) {
	// targets are evaluated in the pre-state
	cc := *c
	cc.heap = pre
	if m.cond != nil && m.kind == "modifies" {
		l := cc.eval(m.e)
		storeH(st.heap, l.addr, l.t, cc.force(cc.eval(m.cond)).v)
		return
	}
	for _, t := range x.modTargets(&cc, m) {
		x.havocTarget(st, t)
	}
}

func (x *Exec) havocTarget(st *State, t frameTarget) {
	if t.heap == "*" {
		for n := range heapSort {
			st.havocHeap(n)
		}
		return
	}
	if t.addr != nil {
		s := Fresh("mod", heapSort[t.heap])
		st.heap[t.heap] = Store(st.H(t.heap), t.addr, s)
		st.alloc += 1000000
		st.ptrFact(s)
		return
	}
	old := st.H(t.heap)
	st.alloc += 1000000
	n := st.havocHeap(t.heap)
	if t.cond != nil {
		k := heapKey[t.heap]
		if k == "" {
			k = SAddr
		}
		a := BVar("a", k)
		sel := Select(n, a)
		st.assume(Forall([]*Term{a}, [][]*Term{{sel}}, Or(t.cond(a), Eq(sel, Select(old, a)))))
	}
}

// ---------------------------------------------------------------- builtins

func (x *Exec) builtin(st *State, fi int, name string, c *ssa.CallCommon, args []Val, pos token.Pos, rt types.Type) Val {
	switch name {
	case "len":
		switch v := args[0].(type) {
		case *SliceV:
			return v.len
		case *Term:
			if v.sort == SStr {
				return Slen(v)
			}
			r := Fresh("len", SInt)
			st.assume(And(Le(I(0), r), Le(r, IntBig(maxLen))))
			return r
		}
	case "cap":
		if v, ok := args[0].(*SliceV); ok {
			return v.cap
		}
	case "append":
		return x.appendB(st, args[0].(*SliceV), args[1])
	case "copy":
		return x.copyB(st, args[0].(*SliceV), args[1])
	case "close":
		ch := args[0].(*Term)
		x.safety(st, "close of nil channel", pos, Ne(ch, Null))
		x.ghostClose(st, ch, pos)
		return &TupleV{}
	case "delete":
		m := args[0].(*Term)
		mt := c.Args[0].Type().Underlying().(*types.Map)
		dom, _ := mapLeaves(mt)
		st.heap[dom] = Store(st.H(dom), m, Store(Select(st.H(dom), m), asTerm(args[1]), False))
		return &TupleV{}
	case "ssa:wrapnilchk":
		x.nonNil(st, args[0].(*Term), "receiver", pos)
		return args[0]
	case "Slice": // unsafe.Slice
		p := args[0].(*Term)
		n := args[1].(*Term)
		et := rt.Underlying().(*types.Slice).Elem()
		x.safety(st, "unsafe.Slice: length out of range", pos, Le(I(0), n))
		x.oblige(st, "safety", "", "unsafe.Slice stays inside one allocation", posOf(pos),
			Or(And(Eq(p, Null), Eq(n, I(0))), And(isElem(p), Le(I(0), eidx(p)), Le(Add(eidx(p), n), Alen(ebase(p))))))
		isE := isElem(p)
		st.assume(isE)
		st.assume(Le(I(0), eidx(p)))
		st.assume(Le(Add(eidx(p), n), Alen(ebase(p))))
		return &SliceV{arr: ebase(p), off: eidx(p), len: n, cap: n, et: et}
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			b := a.(*Term)
			if name == "min" {
				r = Ite(Le(r, b), r, b)
			} else {
				r = Ite(Le(b, r), r, b)
			}
		}
		return r
	case "print", "println":
		return &TupleV{}
	}
	unsupported("builtin %s", name)
	return nil
}

// source of append/copy as (length, element reader per leaf)
func (x *Exec) srcOf(st *State, v Val, et types.Type) (*Term, func(leaf int, i *Term) *Term) {
	switch s := v.(type) {
	case *SliceV:
		lf := leavesOf(et)
		var cs []*Term
		for _, l := range lf {
			cs = append(cs, Select(st.H(elemHeap(et, l)), s.arr))
		}
		return s.len, func(leaf int, i *Term) *Term { return Select(cs[leaf], Add(s.off, i)) }
	case *Term:
		if s.sort == SStr {
			return Slen(s), func(_ int, i *Term) *Term { return Sat(s, i) }
		}
	}
	unsupported("append/copy source %T", v)
	return nil, nil
}

func (x *Exec) fits(st *State, a, b *Term) (yes, no bool) {
	c := Le(a, b)
	if c == True {
		return true, false
	}
	if c == False {
		return false, true
	}
	return false, false
}

func (x *Exec) appendB(st *State, s *SliceV, srcV Val) Val {
	et := s.et
	if _, ok := structOf(et); ok {
		unsupported("append of struct elements")
	}
	n, at := x.srcOf(st, srcV, et)
	if n == I(0) {
		return s
	}
	nl := Add(s.len, n)
	st.assume(Le(nl, IntBig(maxLen)))
	fits := Le(nl, s.cap)
	fresh := x.allocRaw(st)
	lfs := leavesOf(et)
	if fits == True {
		// in place
	}
	arr := Ite(fits, s.arr, fresh)
	ncap := Fresh("cap", SInt)
	cap := Ite(fits, s.cap, ncap)
	st.assume(And(Le(nl, ncap), Le(ncap, IntBig(maxLen))))
	st.assume(Le(Add(s.off, ncap), Alen(fresh)))
	r := &SliceV{arr: arr, off: s.off, len: nl, cap: cap, et: et}
	for li, lf := range lfs {
		h := elemHeap(et, lf)
		old := Select(st.H(h), s.arr)
		var nc *Term
		if isInt(n) && n.ival.IsInt64() && n.ival.Int64() <= 16 {
			nc = old
			for i := int64(0); i < n.ival.Int64(); i++ {
				nc = Store(nc, Add(s.off, s.len, I(i)), at(li, I(i)))
			}
		} else {
			nc = Fresh("app", old.sort)
			i := BVar("i", SInt)
			sel := Select(nc, i)
			base := Add(s.off, s.len)
			st.assume(Forall([]*Term{i}, [][]*Term{{sel}}, Imp(Lt(i, base), Eq(sel, Select(old, i)))))
			src := at(li, Sub(i, base))
			st.assume(Forall([]*Term{i}, [][]*Term{{sel}}, Imp(And(Le(base, i), Lt(i, Add(base, n))), Eq(sel, src))))
			// beyond the appended part the old contents stay (only when appended in place)
			st.assume(Forall([]*Term{i}, [][]*Term{{sel}}, Imp(And(fits, Le(Add(base, n), i)), Eq(sel, Select(old, i)))))
			// reading the source gives the corresponding result element
			if sl, ok := srcV.(*SliceV); ok {
				j := BVar("j", SInt)
				sc := Select(st.H(h), sl.arr)
				s2 := Select(sc, j)
				if s2.op == "select" {
					st.assume(Forall([]*Term{j}, [][]*Term{{s2}}, Imp(And(Le(sl.off, j), Lt(j, Add(sl.off, n))), Eq(Select(nc, Add(base, Sub(j, sl.off))), s2))))
				}
			}
		}
		if fits == True {
			st.heap[h] = Store(st.H(h), s.arr, nc)
		} else if fits == False {
			st.heap[h] = Store(st.H(h), fresh, nc)
		} else {
			st.heap[h] = Store(st.H(h), arr, nc)
		}
	}
	return r
}

func (x *Exec) copyB(st *State, d *SliceV, srcV Val) Val {
	n, at := x.srcOf(st, srcV, d.et)
	if _, ok := structOf(d.et); ok {
		unsupported("copy of struct elements")
	}
	cnt := Ite(Le(d.len, n), d.len, n)
	for li, lf := range leavesOf(d.et) {
		h := elemHeap(d.et, lf)
		old := Select(st.H(h), d.arr)
		var nc *Term
		if isInt(cnt) && cnt.ival.Int64() <= 16 {
			nc = old
			for i := int64(0); i < cnt.ival.Int64(); i++ {
				nc = Store(nc, Add(d.off, I(i)), at(li, I(i)))
			}
		} else {
			nc = Fresh("cpy", old.sort)
			i := BVar("i", SInt)
			sel := Select(nc, i)
			in := And(Le(d.off, i), Lt(i, Add(d.off, cnt)))
			st.assume(Forall([]*Term{i}, [][]*Term{{sel}}, And(Imp(in, Eq(sel, at(li, Sub(i, d.off)))), Imp(Not(in), Eq(sel, Select(old, i))))))
			if sl, ok := srcV.(*SliceV); ok {
				j := BVar("j", SInt)
				sc := Select(st.H(h), sl.arr)
				s2 := Select(sc, j)
				if s2.op == "select" {
					st.assume(Forall([]*Term{j}, [][]*Term{{s2}}, Imp(And(Le(sl.off, j), Lt(j, Add(sl.off, cnt))), Eq(Select(nc, Add(d.off, Sub(j, sl.off))), s2))))
				}
			}
		}
		st.heap[h] = Store(st.H(h), d.arr, nc)
	}
	return cnt
}

// ---------------------------------------------------------------- channels

func (x *Exec) ghostTab(name string) (string, bool) {
	g, ok := theSpec.ghosts[name]
	if !ok {
		return "", false
	}
	return (&evalCtx{pkg: x.pkg}).ghostHeap(g), true
}

func (x *Exec) ghostInitChan(st *State, a *Term) {
	if h, ok := x.ghostTab("chsent"); ok {
		st.heap[h] = Store(st.H(h), a, I(0))
	}
	if h, ok := x.ghostTab("chclosed"); ok {
		st.heap[h] = Store(st.H(h), a, False)
	}
}

func (x *Exec) ghostClose(st *State, ch *Term, pos token.Pos) {
	if h, ok := x.ghostTab("chclosed"); ok {
		x.safety(st, "close of a closed channel", pos, Not(Select(st.H(h), ch)))
		st.heap[h] = Store(st.H(h), ch, True)
	}
}

func (x *Exec) sendInstr(st *State, fi int, ins *ssa.Send) {
	ch := x.val(st, fi, ins.Chan).(*Term)
	v := x.val(st, fi, ins.X)
	x.safety(st, "send on nil channel blocks forever", ins.Pos(), Ne(ch, Null))
	h, ok := x.ghostTab("chsent")
	if !ok {
		x.blocking(st, "channel send", posOf(ins.Pos()))
		return
	}
	n := Select(st.H(h), ch)
	x.safety(st, "send on a full channel blocks: completion signalled twice", ins.Pos(), Lt(n, mk("chancap", SInt, ch)))
	st.heap[h] = Store(st.H(h), ch, Add(n, I(1)))
	if hv, ok := x.ghostTab("chval"); ok {
		if t, ok := v.(*Term); ok && t.sort == SIface {
			st.heap[hv] = Store(st.H(hv), ch, t)
		}
	}
}

func (x *Exec) recvInstr(st *State, fi int, ins *ssa.UnOp, k contFn) {
	ch := x.val(st, fi, ins.X).(*Term)
	x.blocking(st, "channel receive", posOf(ins.Pos()))
	x.safety(st, "receive from nil channel blocks forever", ins.Pos(), Ne(ch, Null))
	et := ins.X.Type().Underlying().(*types.Chan).Elem()
	v := freshVal("recv", et)
	st.assumeWF(v, et)
	if t, ok := v.(*Term); ok && t.sort == SIface {
		if hv, ok := x.ghostTab("chgot"); ok {
			st.heap[hv] = Store(st.H(hv), ch, t)
		}
		if hn, ok := x.ghostTab("chrecvs"); ok {
			st.heap[hn] = Store(st.H(hn), ch, Add(Select(st.H(hn), ch), I(1)))
		}
	}
	if ins.CommaOk {
		b := Fresh("ok", SBool)
		k(st, &TupleV{vs: []Val{v, b}})
		return
	}
	k(st, v)
}

func (x *Exec) selectInstr(st *State, fi int, ins *ssa.Select, k contFn) {
	if ins.Blocking {
		x.blocking(st, "select", posOf(ins.Pos()))
	}
	n := len(ins.States)
	idx := Fresh("sel", SInt)
	lo := int64(0)
	if !ins.Blocking {
		lo = -1
	}
	st.assume(And(Le(I(lo), idx), Lt(idx, I(int64(n)))))
	tv := &TupleV{vs: []Val{idx, Fresh("selok", SBool)}}
	tt := ins.Type().(*types.Tuple)
	for i := 2; i < tt.Len(); i++ {
		v := freshVal("selv", tt.At(i).Type())
		st.assumeWF(v, tt.At(i).Type())
		tv.vs = append(tv.vs, v)
	}
	k(st, tv)
}
