package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- immutable fields and type invariants
//
// "immutable" fields are only stored while the object is being built, by the function that allocated it (or a helper
// it calls); this is checked on the whole program (immutableCheck) and at every store that is executed symbolically.
// Their heaps therefore never change for objects that already exist.
//
// "typeinv T(p): e" states a fact about immutable fields of every finished T.  It is an obligation on every function
// that allocates a T (at return, at go statements and when the object is handed to a function under contract) and an
// assumption about every other T.

type TypeInv struct {
	typ, v, text, label, pos, pkg string
	e                             *Expr
}

var immutableFields = map[string]bool{}
var immutableHeaps = map[string]bool{}
var typeInvs = map[string][]*TypeInv{} // by struct key

func indexTypeInvs() {
	for _, c := range theSpec.checks {
		if c.kind != "immutable" {
			continue
		}
		for _, f := range c.args {
			i := strings.LastIndexByte(f, '.')
			t := (&evalCtx{pkg: pkgByName(c.pkg)}).goType(f[:i])
			s, ok := structOf(t)
			if !ok {
				panic(specErr{c.pos + ": " + f + " is not a field"})
			}
			found := false
			for j := 0; j < s.NumFields(); j++ {
				if s.Field(j).Name() == f[i+1:] {
					found = true
					key := structKey(t) + "." + f[i+1:]
					immutableFields[key] = true
					if _, ok := structOf(s.Field(j).Type()); !ok && !isCondPtr(s.Field(j).Type()) {
						for _, lf := range leavesOf(s.Field(j).Type()) {
							immutableHeaps[fieldHeap(key, lf)] = true
						}
					}
				}
			}
			if !found {
				panic(specErr{c.pos + ": no field " + f})
			}
		}
	}
	for _, ti := range theSpec.typeinvs {
		t := (&evalCtx{pkg: pkgByName(ti.pkg)}).goType(ti.typ)
		typeInvs[structKey(t)] = append(typeInvs[structKey(t)], ti)
	}
}

func (ti *TypeInv) eval(st *State, base *Term, note bool) *Term {
	c := &evalCtx{heap: st.heap, old: st.heap, vars: map[string]SV{}, pkg: pkgByName(ti.pkg)}
	if note {
		c.st = st
	}
	c.vars[ti.v] = SV{v: base, t: types.NewPointer(c.goType(ti.typ)), sort: SAddr}
	return c.bool(ti.e)
}

func rootOf(b *Term) *Term {
	for {
		switch b.op {
		case "fld":
			b = b.args[1]
		case "elem":
			b = b.args[0]
		default:
			return b
		}
	}
}

func ownAlloc(b *Term) bool {
	r := rootOf(b)
	return r.op == "root" && isInt(r.args[0]) && r.args[0].ival.Sign() < 0
}

// typeFacts assumes the invariants of the object at base (of struct type key).
func (st *State) typeFacts(key string, base *Term) {
	tis := typeInvs[key]
	if len(tis) == 0 || base.bound || ownAlloc(base) || base == Null {
		return
	}
	if base.op == "ite" {
		return
	}
	id := fmt.Sprintf("%s|%d", key, base.id)
	for _, n := range st.noted {
		if n == id {
			return
		}
	}
	st.noted = append(st.noted[:len(st.noted):len(st.noted)], id)
	for _, ti := range tis {
		usedTypeInv[key] = true
		st.assume(Imp(Ne(base, Null), ti.eval(st, base, true)))
	}
}

var usedImm = map[string]bool{}

var usedTypeInv = map[string]bool{}

// immStore is called at every store executed.
func (x *Exec) immStore(st *State, p *Term, t types.Type, pos token.Pos) {
	if s, ok := structOf(t); ok {
		if _, op := opaqueStruct(t); op {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			if immutableFields[structKey(t)+"."+s.Field(i).Name()] {
				x.immStore(st, Fld(fieldID(t, i), p), s.Field(i).Type(), pos)
			}
		}
		return
	}
	k := fldKey(p)
	if !immutableFields[k] {
		return
	}
	if !ownAlloc(p) {
		x.oblige(st, "immutable", "", k+" is only set while its object is built", posOf(pos), False)
		return
	}
	base := p.args[1]
	key := k[:strings.LastIndexByte(k, '.')]
	for _, b := range st.built {
		if b.base == base && b.key == key {
			return
		}
	}
	st.built = append(st.built[:len(st.built):len(st.built)], builtObj{key, base})
}

type builtObj struct {
	key  string
	base *Term
}

// builtCheck: the objects built so far satisfy their type invariants.
func (x *Exec) builtCheck(st *State, what, pos string, only map[*Term]bool) {
	for _, b := range st.built {
		if only != nil && !only[rootOf(b.base)] {
			continue
		}
		for _, ti := range typeInvs[b.key] {
			if ti.label == "assume" {
				x.trustedNotes["assumed of every finished "+ti.typ+": "+ti.text] = true
				continue
			}
			x.obligeConj(st, "typeinv", ti.label, "invariant of "+ti.typ+" at "+what+": "+ti.text, pos, ti.eval(st, b.base, false))
		}
	}
}

func builtArgs(args []Val) map[*Term]bool {
	out := map[*Term]bool{}
	var add func(v Val)
	add = func(v Val) {
		switch y := v.(type) {
		case *Term:
			if y.sort == SAddr && ownAlloc(y) {
				out[rootOf(y)] = true
			}
		case *SliceV:
			add(y.arr)
		case *StructV:
			for _, f := range y.fs {
				add(f)
			}
		case *ClosureV:
			for _, f := range y.bind {
				add(f)
			}
		}
	}
	for _, a := range args {
		add(a)
	}
	return out
}

// ---------------------------------------------------------------- whole-program check

type immSite struct {
	fn  *ssa.Function
	pos string
	why string
}

func addrRoot(v ssa.Value) ssa.Value {
	for {
		switch y := v.(type) {
		case *ssa.FieldAddr:
			v = y.X
		case *ssa.ChangeType:
			v = y.X
		default:
			return v
		}
	}
}

// reaches: block a can reach block b without entering block cut (cut may be nil).
func reaches(a, b, cut *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == cut {
				continue
			}
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(a)
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

// before: a may be executed before b.
func before(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() && instrIndex(a) < instrIndex(b) {
		return true
	}
	return reaches(a.Block(), b.Block(), nil)
}

// immutableCheck examines all stores of a field in the program; it returns a description of an offending one, or "".
func immutableCheck(key string) string {
	i := strings.LastIndexByte(key, '.')
	tk, fname := key[:i], key[i+1:]
	callers := map[*ssa.Function][]ssa.CallInstruction{}
	escapes := map[*ssa.Function]bool{}
	var fns []*ssa.Function
	for _, f := range allRepoFuncs() {
		fns = append(fns, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Function
				if c, ok := in.(ssa.CallInstruction); ok {
					callee = c.Common().StaticCallee()
					if callee != nil {
						callers[callee] = append(callers[callee], c)
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && g != callee {
						escapes[g] = true
					}
				}
			}
		}
	}
	hasField := func(t types.Type) bool { // whole-struct stores
		var rec func(t types.Type) bool
		rec = func(t types.Type) bool {
			s, ok := structOf(t)
			if !ok {
				return false
			}
			if structKey(t) == tk {
				return true
			}
			for j := 0; j < s.NumFields(); j++ {
				if rec(s.Field(j).Type()) {
					return true
				}
			}
			return false
		}
		return rec(t)
	}
	var fresh func(fn *ssa.Function, root ssa.Value, at ssa.Instruction, depth int) string
	fresh = func(fn *ssa.Function, root ssa.Value, at ssa.Instruction, depth int) string {
		where := posOf(at.Pos()) + " in " + fn.String()
		if depth > 6 {
			return "call chain too deep at " + where
		}
		switch r := root.(type) {
		case *ssa.Alloc:
			if reaches(at.Block(), at.Block(), r.Block()) && at.Block() != r.Block() {
				return "assigned repeatedly at " + where
			}
			// no goroutine may have been started before, and the object was not stored anywhere that is read by others
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if g, ok := in.(*ssa.Go); ok && before(g, at) && before(r, g) {
						return "assigned after a goroutine was started at " + where
					}
				}
			}
			return ""
		case *ssa.Parameter:
			if escapes[fn] {
				return fn.String() + " is used as a value"
			}
			if fn.Object() != nil && fn.Object().Exported() && fn.Signature.Recv() == nil {
				return "assigned by exported " + where
			}
			if fn.Object() != nil && fn.Object().Exported() {
				return "assigned by exported method " + where
			}
			n := -1
			for j, p := range fn.Params {
				if p == r {
					n = j
				}
			}
			for _, c := range callers[fn] {
				if _, ok := c.(*ssa.Call); !ok {
					return "deferred or concurrent assignment at " + where
				}
				if w := fresh(c.Parent(), addrRoot(c.Common().Args[n]), c, depth+1); w != "" {
					return w
				}
			}
			return ""
		}
		return "assigned through an existing object at " + where
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch s := in.(type) {
				case *ssa.Store:
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
						t := deref(fa.X.Type())
						st, _ := structOf(t)
						if structKey(t) == tk && st.Field(fa.Field).Name() == fname {
							if w := fresh(f, addrRoot(fa.X), s, 0); w != "" {
								return w
							}
							continue
						}
					}
					if hasField(s.Val.Type()) {
						if w := fresh(f, addrRoot(s.Addr), s, 0); w != "" {
							return w
						}
					}
				case *ssa.FieldAddr:
					t := deref(s.X.Type())
					st, _ := structOf(t)
					if structKey(t) != tk || st.Field(s.Field).Name() != fname {
						continue
					}
					if _, ok := structOf(st.Field(s.Field).Type()); ok {
						continue // embedded object: its own fields are declared separately
					}
					for _, u := range *s.Referrers() {
						switch y := u.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							if y.Addr != s {
								return "address of " + key + " is kept at " + posOf(u.Pos())
							}
						default:
							return "address of " + key + " is taken at " + posOf(s.Pos())
						}
					}
				}
			}
		}
	}
	return ""
}

func allRepoFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range allFuncs {
		if len(f.Blocks) > 0 && (f.Synthetic == "" || f.Name() == "init") {
			out = append(out, f)
		}
	}
	return out
}

// buildersOf lists the contract keys whose verification executes an allocation of a struct with the given key.
func buildersOf(key string) []string {
	allocs := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && containsStruct(deref(a.Type()), key) {
					return true
				}
			}
		}
		return false
	}
	var out []string
	for _, fs := range theSpec.funcs {
		if fs.extern {
			continue
		}
		f := funcByID[fs.pkg+":"+fs.name]
		if f == nil {
			continue
		}
		seen := map[*ssa.Function]bool{}
		var walk func(g *ssa.Function) bool
		walk = func(g *ssa.Function) bool {
			if seen[g] {
				return false
			}
			seen[g] = true
			if allocs(g) {
				return true
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					h := c.Common().StaticCallee()
					if h == nil || !inRepo(h) || (contractOf(h) != nil && contractOf(h).flags["inline"] == "") {
						continue
					}
					if walk(h) {
						return true
					}
				}
			}
			return false
		}
		if walk(f) {
			out = append(out, fs.pkg+":"+fs.name)
		}
	}
	return out
}

func containsStruct(t types.Type, key string) bool {
	s, ok := structOf(t)
	if !ok {
		return false
	}
	if structKey(t) == key {
		return true
	}
	for j := 0; j < s.NumFields(); j++ {
		if containsStruct(s.Field(j).Type(), key) {
			return true
		}
	}
	return false
}
