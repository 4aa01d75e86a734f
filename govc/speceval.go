package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SV is a specification value.
type SV struct {
	v    Val
	t    types.Type // Go type when known
	sort string     // spec sort for non-Go values
	addr *Term      // address when the value is an lvalue
	h    map[string]*Term
	seq  *SeqV
	lazy bool // struct lvalue not loaded yet
}

type SeqV struct {
	n    *Term
	at   func(i *Term) *Term
	base *Term // content array
	off  *Term
}

type evalCtx struct {
	heap     map[string]*Term
	old      map[string]*Term
	oldAlloc int
	vars     map[string]SV
	pkg      *ssa.Package
	st       *State // receives well-formedness facts of ground loads
	depth    int
	pre      map[string]*Term // extra labelled heap
	oldVars  map[string]SV
	preVars  map[string]SV
}

func (c *evalCtx) with(vars map[string]SV) *evalCtx {
	n := *c
	n.vars = map[string]SV{}
	for k, v := range c.vars {
		n.vars[k] = v
	}
	for k, v := range vars {
		n.vars[k] = v
	}
	return &n
}

type specErr struct{ msg string }

func serr(e *Expr, f string, a ...interface{}) {
	pos := ""
	if e != nil {
		pos = e.pos + ": "
	}
	panic(specErr{pos + fmt.Sprintf(f, a...)})
}

var theSpec *Spec
var dtByName = map[string]*DTDef{}
var dtSel = map[string]int{} // selector -> field index
var dtSelSort = map[string]string{}

func (c *evalCtx) specType(s string) (string, types.Type) {
	switch s {
	case "int", "":
		return SInt, nil
	case "bool":
		return SBool, nil
	case "ref":
		return SAddr, nil
	case "str":
		return SStr, nil
	case "iface":
		return SIface, nil
	case "fn":
		return SFn, nil
	case "error":
		return SIface, types.Universe.Lookup("error").Type()
	}
	if strings.HasPrefix(s, "[]") {
		return "slice", types.NewSlice(c.goType(s[2:]))
	}
	if strings.HasPrefix(s, "[") {
		i := strings.IndexByte(s, ']')
		k, _ := c.specType(s[1:i])
		v, vt := c.specType(s[i+1:])
		if vt != nil {
			return arrSort(k, v), types.NewMap(types.Typ[types.Int], vt)
		}
		return arrSort(k, v), nil
	}
	if strings.HasPrefix(s, "*") {
		return SAddr, types.NewPointer(c.goType(s[1:]))
	}
	if _, ok := dtByName[s]; ok {
		return s, nil
	}
	t := c.goType(s)
	if _, ok := structOf(t); ok {
		return "struct", t
	}
	srt, _ := scalarSort(t)
	return srt, t
}

func (c *evalCtx) goType(s string) types.Type {
	switch s {
	case "byte":
		return types.Typ[types.Byte]
	case "uint64":
		return types.Typ[types.Uint64]
	case "uint32":
		return types.Typ[types.Uint32]
	case "string":
		return types.Typ[types.String]
	case "int":
		return types.Typ[types.Int]
	case "bool":
		return types.Typ[types.Bool]
	case "error":
		return types.Universe.Lookup("error").Type()
	}
	if strings.HasPrefix(s, "*") {
		return types.NewPointer(c.goType(s[1:]))
	}
	if strings.HasPrefix(s, "[]") {
		return types.NewSlice(c.goType(s[2:]))
	}
	pkg := c.pkg
	if i := strings.LastIndexByte(s, '.'); i >= 0 {
		pn := s[:i]
		s = s[i+1:]
		for _, p := range thePkgs {
			for _, imp := range p.Pkg.Imports() {
				if imp.Name() == pn {
					if o := imp.Scope().Lookup(s); o != nil {
						return o.Type()
					}
				}
			}
		}
		for _, p := range thePkgs {
			if p.Pkg.Name() == pn {
				pkg = p
			}
		}
	}
	if pkg == nil {
		panic(specErr{"no package for type " + s})
	}
	o := pkg.Pkg.Scope().Lookup(s)
	if o == nil {
		panic(specErr{"unknown type " + s})
	}
	return o.Type()
}

func svT(t *Term) SV { return SV{v: t, sort: t.sort} }

func (v SV) term() *Term {
	if v.seq != nil {
		panic(specErr{"sequence where a scalar is expected"})
	}
	switch x := v.v.(type) {
	case *Term:
		return x
	case *ClosureV:
		return fnTerm(x)
	case nil:
		if v.addr != nil {
			return v.addr
		}
	}
	panic(specErr{fmt.Sprintf("scalar expected, got %T", v.v)})
}

func (c *evalCtx) force(v SV) SV {
	if v.lazy {
		val := loadH(v.h, v.addr, v.t)
		return SV{v: val, t: v.t, addr: v.addr, h: v.h}
	}
	return v
}

func (c *evalCtx) bool(e *Expr) *Term {
	v := c.eval(e)
	t := v.term()
	if t.sort != SBool {
		serr(e, "boolean expected")
	}
	return t
}
func (c *evalCtx) int(e *Expr) *Term {
	t := c.eval(e).term()
	if t.sort != SInt {
		serr(e, "int expected, got %s", t.sort)
	}
	return t
}

// ground well-formedness of loaded values
func (c *evalCtx) note(v SV) SV {
	if c.st == nil || v.t == nil || v.lazy {
		return v
	}
	for _, f := range wfFacts(v.v, v.t, c.st.alloc) {
		if !f.bound && f != True && !c.st.knownFact(f) {
			c.st.assume(f)
		}
	}
	return v
}

func isBound(v Val) bool {
	switch x := v.(type) {
	case *Term:
		return x.bound
	case *SliceV:
		return x.arr.bound || x.off.bound || x.len.bound
	}
	return false
}

func (c *evalCtx) eval(e *Expr) SV {
	switch e.kind {
	case "int":
		return SV{v: IntBig(e.n), sort: SInt}
	case "str":
		return SV{v: StrLit(e.s), sort: SStr, t: types.Typ[types.String]}
	case "ident":
		return c.ident(e)
	case "old":
		n := *c
		n.heap = c.old
		if c.old == nil {
			serr(e, "old() has no meaning here")
		}
		if c.oldVars != nil {
			n.vars = map[string]SV{}
			for k, v := range c.vars {
				n.vars[k] = v
			}
			for k, v := range c.oldVars {
				n.vars[k] = v
			}
		}
		return n.force(n.eval(e.a[0]))
	case "unary":
		return c.unary(e)
	case "field":
		return c.field(e)
	case "index":
		return c.index(e)
	case "update":
		a := c.eval(e.a[0]).term()
		return svT(Store(a, c.eval(e.a[1]).term(), c.eval(e.a[2]).term()))
	case "slice":
		x := c.force(c.eval(e.a[0]))
		s := c.seqOf(x)
		lo := I(0)
		if e.a[1] != nil {
			lo = c.int(e.a[1])
		}
		hi := s.n
		if e.a[2] != nil {
			hi = c.int(e.a[2])
		}
		ns := &SeqV{n: Sub(hi, lo), at: func(i *Term) *Term { return s.at(Add(lo, i)) }}
		if s.base != nil {
			ns.base, ns.off = s.base, Add(s.off, lo)
		}
		return SV{seq: ns}
	case "cond":
		b := c.bool(e.a[0])
		x, y := c.force(c.eval(e.a[1])), c.force(c.eval(e.a[2]))
		if x.seq != nil || y.seq != nil || (x.t != nil && x.sort == SStr && y.seq != nil) {
			sx, sy := c.seqOf(x), c.seqOf(y)
			return SV{seq: &SeqV{n: Ite(b, sx.n, sy.n), at: func(i *Term) *Term { return Ite(b, sx.at(i), sy.at(i)) }}}
		}
		t := x.t
		if t == nil {
			t = y.t
		}
		xv, yv := coerceNil(x, y), coerceNil(y, x)
		r := iteVal(b, xv, yv)
		out := SV{v: r, t: t}
		if tt, ok := r.(*Term); ok {
			out.sort = tt.sort
		}
		return out
	case "bin":
		return c.bin(e)
	case "forall", "exists":
		return c.quant(e)
	case "call":
		return c.call(e)
	}
	serr(e, "bad expression %s", e.kind)
	return SV{}
}

var nilMark = Const("nil$", "Nil")

func coerceNil(x, y SV) Val {
	if t, ok := x.v.(*Term); ok && t == nilMark {
		switch yv := y.v.(type) {
		case *SliceV:
			return &SliceV{arr: Null, off: I(0), len: I(0), cap: I(0), et: yv.et}
		case *ClosureV:
			return FnNil
		case *Term:
			if yv == nilMark {
				return Null
			}
			return zeroScalar(yv.sort)
		}
	}
	return x.v
}

func (c *evalCtx) ident(e *Expr) SV {
	switch e.s {
	case "true":
		return svT(True)
	case "false":
		return svT(False)
	case "nil":
		return SV{v: nilMark, sort: "Nil"}
	case "null":
		return svT(Null)
	}
	if v, ok := c.vars[e.s]; ok {
		return v
	}
	if c.pkg != nil {
		if m, ok := c.pkg.Members[e.s]; ok {
			switch g := m.(type) {
			case *ssa.Global:
				t := deref(g.Type())
				a := globalAddr(g)
				if _, ok := structOf(t); ok {
					return SV{t: t, addr: a, h: c.heap, lazy: true}
				}
				v := loadGlobal(c.heap, g)
				return c.note(SV{v: v, t: t, addr: a, h: c.heap, sort: valSort(v)})
			case *ssa.NamedConst:
				if g.Value.Value.Kind() == constant.Int {
					n, _ := new(big.Int).SetString(g.Value.Value.ExactString(), 10)
					return SV{v: IntBig(n), sort: SInt}
				}
				if g.Value.Value.Kind() == constant.String {
					return SV{v: StrLit(constant.StringVal(g.Value.Value)), sort: SStr, t: types.Typ[types.String]}
				}
				if g.Value.Value.Kind() == constant.Bool {
					return svT(B(constant.BoolVal(g.Value.Value)))
				}
			}
		}
	}
	if d, ok := theSpec.preds[e.s]; ok && len(d.params) == 0 {
		return c.call(&Expr{kind: "call", s: e.s, pos: e.pos})
	}
	serr(e, "unknown identifier %s", e.s)
	return SV{}
}

func valSort(v Val) string {
	if t, ok := v.(*Term); ok {
		return t.sort
	}
	return ""
}

func (c *evalCtx) unary(e *Expr) SV {
	switch e.s {
	case "!":
		return svT(Not(c.bool(e.a[0])))
	case "-":
		return svT(Sub(I(0), c.int(e.a[0])))
	case "&":
		v := c.eval(e.a[0])
		if v.addr == nil {
			serr(e, "not addressable")
		}
		var t types.Type
		if v.t != nil {
			t = types.NewPointer(v.t)
		}
		return SV{v: v.addr, t: t, sort: SAddr}
	case "*":
		v := c.force(c.eval(e.a[0]))
		if v.t == nil {
			serr(e, "dereference of untyped value")
		}
		t := deref(v.t)
		if _, ok := structOf(t); ok {
			return SV{t: t, addr: v.term(), h: c.heap, lazy: true}
		}
		r := loadH(c.heap, v.term(), t)
		return c.note(SV{v: r, t: t, addr: v.term(), h: c.heap, sort: valSort(r)})
	}
	serr(e, "bad unary %s", e.s)
	return SV{}
}

func (c *evalCtx) field(e *Expr) SV {
	// package-qualified global
	if e.a[0].kind == "ident" {
		if _, ok := c.vars[e.a[0].s]; !ok {
			for _, p := range thePkgs {
				if p.Pkg.Name() == e.a[0].s && p != c.pkg {
					n := *c
					n.pkg = p
					n.vars = map[string]SV{}
					return n.ident(&Expr{kind: "ident", s: e.s, pos: e.pos})
				}
			}
		}
	}
	x := c.eval(e.a[0])
	return c.fieldOf(e, x, e.s)
}

func (c *evalCtx) fieldOf(e *Expr, x SV, name string) SV {
	if d, ok := dtByName[x.sort]; ok {
		for i, f := range d.fields {
			if f.name == name {
				return c.dtField(d, i, x.term())
			}
		}
		serr(e, "no field %s in %s", name, x.sort)
	}
	if x.t == nil {
		serr(e, "field %s of a value without Go type", name)
	}
	t := x.t
	var base *Term
	h := x.h
	if _, ok := t.Underlying().(*types.Pointer); ok {
		base = c.force(x).term()
		t = deref(t)
		h = c.heap
	} else if x.lazy {
		base = x.addr
	}
	s, ok := structOf(t)
	if !ok {
		serr(e, "field %s of non-struct %s", name, t)
	}
	if ls, ok := opaqueStruct(t); ok {
		for i, l := range ls {
			if l.path == name {
				if base == nil {
					return SV{v: x.v.(*StructV).fs[i], sort: l.sort}
				}
				return c.note(SV{v: Select(getH(h, opaqueHeap(t, l)), base), sort: l.sort, t: atomicElem(t)})
			}
		}
		serr(e, "no modelled field %s in %s", name, t)
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() != name {
			continue
		}
		ft := s.Field(i).Type()
		if base == nil {
			v := x.v.(*StructV).fs[i]
			return SV{v: v, t: ft, sort: valSort(v)}
		}
		fa := Fld(fieldID(t, i), base)
		if _, ok := structOf(ft); ok {
			return SV{t: ft, addr: fa, h: h, lazy: true}
		}
		if isCondPtr(ft) {
			return SV{v: fa, t: ft, addr: fa, h: h, sort: fa.sort}
		}
		v := loadField(h, base, t, i)
		if k := structKey(t) + "." + name; immutableFields[k] {
			usedImm[k] = true
			if c.st != nil {
				c.st.typeFacts(structKey(t), base)
			}
		}
		return c.note(SV{v: v, t: ft, addr: fa, h: h, sort: valSort(v)})
	}
	serr(e, "no field %s in %s", name, t)
	return SV{}
}

func (c *evalCtx) dtField(d *DTDef, i int, x *Term) SV {
	srt, t := c.specType(d.fields[i].typ)
	return SV{v: mkSel(d, i, x, srt), sort: srt, t: t}
}

func mkSel(d *DTDef, i int, x *Term, srt string) *Term {
	if x.op == d.ctor {
		return x.args[i]
	}
	if x.op == "ite" && (x.args[1].op == d.ctor || x.args[2].op == d.ctor) {
		return Ite(x.args[0], mkSel(d, i, x.args[1], srt), mkSel(d, i, x.args[2], srt))
	}
	return mk(d.ctor+"."+d.fields[i].name, srt, x)
}

func (c *evalCtx) index(e *Expr) SV {
	x := c.force(c.eval(e.a[0]))
	i := c.eval(e.a[1])
	if x.seq != nil {
		return svT(x.seq.at(i.term()))
	}
	if mt := mapTypeOf(x.t); mt != nil && isAddrTerm(x.v) {
		_, ls := mapLeaves(mt)
		r := mapReadH(c.heap, x.term(), i.term(), mt, ls, nil)
		return SV{v: r, t: mt.Elem(), sort: valSort(r)}
	}
	switch v := x.v.(type) {
	case *SliceV:
		et := v.et
		a := Elem(v.arr, Add(v.off, i.term()))
		if _, ok := structOf(et); ok {
			return SV{t: et, addr: a, h: c.heap, lazy: true}
		}
		r := loadH(c.heap, a, et)
		return c.note(SV{v: r, t: et, addr: a, h: c.heap, sort: valSort(r)})
	case *Term:
		if v.sort == SStr {
			return svT(Sat(v, i.term()))
		}
		if strings.HasPrefix(v.sort, "(Array") {
			r := Select(v, i.term())
			return SV{v: r, sort: r.sort, t: elemGoType(x.t)}
		}
	}
	serr(e, "cannot index")
	return SV{}
}

func isAddrTerm(v Val) bool {
	t, ok := v.(*Term)
	return ok && t.sort == SAddr
}

func mapTypeOf(t types.Type) *types.Map {
	if t == nil {
		return nil
	}
	m, _ := t.Underlying().(*types.Map)
	return m
}

func elemGoType(t types.Type) types.Type {
	if m, ok := t.(*types.Map); ok {
		return m.Elem()
	}
	return nil
}

func (c *evalCtx) seqOf(x SV) *SeqV {
	x = c.force(x)
	if x.seq != nil {
		return x.seq
	}
	switch v := x.v.(type) {
	case *SliceV:
		h := c.heap
		if x.h != nil {
			h = x.h
		}
		base := contentH(h, v.arr, v.et)
		return &SeqV{n: v.len, at: func(i *Term) *Term { return Select(base, Add(v.off, i)) }, base: base, off: v.off}
	case *Term:
		if v.sort == SStr {
			return &SeqV{n: Slen(v), at: func(i *Term) *Term { return Sat(v, i) }}
		}
	}
	panic(specErr{fmt.Sprintf("sequence expected (%T)", x.v)})
}

func seqEq(a, b *SeqV) *Term {
	if a.base == nil && b.base != nil {
		a, b = b, a
	}
	ne := Eq(a.n, b.n)
	if isInt(a.n) && a.n.ival.IsInt64() && a.n.ival.Int64() <= 40 || isInt(b.n) && b.n.ival.IsInt64() && b.n.ival.Int64() <= 40 {
		n := a.n
		if !isInt(n) {
			n = b.n
		}
		cs := []*Term{ne}
		for i := int64(0); i < n.ival.Int64(); i++ {
			cs = append(cs, Eq(a.at(I(i)), b.at(I(i))))
		}
		return And(cs...)
	}
	if a.base != nil {
		i := BVar("i", SInt)
		sel := Select(a.base, i)
		var pats [][]*Term
		if sel.op == "select" {
			pats = [][]*Term{{sel}}
		}
		f := Forall([]*Term{i}, pats, Imp(And(Le(a.off, i), Lt(i, Add(a.off, a.n))), Eq(sel, b.at(Sub(i, a.off)))))
		if b.base != nil && b.base != a.base {
			j := BVar("i", SInt)
			sel2 := Select(b.base, j)
			if sel2.op == "select" {
				g := Forall([]*Term{j}, [][]*Term{{sel2}}, Imp(And(Le(b.off, j), Lt(j, Add(b.off, b.n))), Eq(sel2, a.at(Sub(j, b.off)))))
				return And(ne, f, g)
			}
		}
		return And(ne, f)
	}
	i := BVar("i", SInt)
	return And(ne, Forall([]*Term{i}, nil, Imp(And(Le(I(0), i), Lt(i, a.n)), Eq(a.at(i), b.at(i)))))
}

func (c *evalCtx) isSeqLike(v SV) bool { return v.seq != nil }

func (c *evalCtx) bin(e *Expr) SV {
	switch e.s {
	case "&&":
		return svT(And(c.bool(e.a[0]), c.bool(e.a[1])))
	case "||":
		return svT(Or(c.bool(e.a[0]), c.bool(e.a[1])))
	case "==>":
		return svT(Imp(c.bool(e.a[0]), c.bool(e.a[1])))
	case "<==>":
		return svT(Eq(c.bool(e.a[0]), c.bool(e.a[1])))
	case "==", "!=":
		x, y := c.force(c.eval(e.a[0])), c.force(c.eval(e.a[1]))
		var r *Term
		if x.seq != nil || y.seq != nil {
			r = seqEq(c.seqOf(x), c.seqOf(y))
		} else if xs, ok := x.v.(*SliceV); ok && y.v == nilMark {
			r = Eq(xs.arr, Null)
		} else if ys, ok := y.v.(*SliceV); ok && x.v == nilMark {
			r = Eq(ys.arr, Null)
		} else {
			xv, yv := coerceNil(x, y), coerceNil(y, x)
			// comparing an interface with a struct or pointer value
			if xt, ok := xv.(*Term); ok && xt.sort == SIface {
				if _, isT := yv.(*Term); !isT || yv.(*Term).sort != SIface {
					yv = boxVal(yv, y.t)
				}
			} else if yt, ok := yv.(*Term); ok && yt.sort == SIface {
				if _, isT := xv.(*Term); !isT || xv.(*Term).sort != SIface {
					xv = boxVal(xv, x.t)
				}
			}
			xt, ok1 := xv.(*Term)
			yt, ok2 := yv.(*Term)
			if _, c1 := xv.(*ClosureV); !c1 {
				if _, c2 := yv.(*ClosureV); !c2 && fmt.Sprintf("%T", xv) != fmt.Sprintf("%T", yv) {
					serr(e, "comparison of %T and %T", xv, yv)
				}
			}
			if ok1 && ok2 && xt.sort != yt.sort {
				serr(e, "comparison of %s and %s", xt.sort, yt.sort)
			}
			r = valEq(xv, yv)
		}
		if e.s == "!=" {
			r = Not(r)
		}
		return svT(r)
	case "<":
		return svT(Lt(c.int(e.a[0]), c.int(e.a[1])))
	case "<=":
		return svT(Le(c.int(e.a[0]), c.int(e.a[1])))
	case ">":
		return svT(Lt(c.int(e.a[1]), c.int(e.a[0])))
	case ">=":
		return svT(Le(c.int(e.a[1]), c.int(e.a[0])))
	case "+":
		return svT(Add(c.int(e.a[0]), c.int(e.a[1])))
	case "-":
		return svT(Sub(c.int(e.a[0]), c.int(e.a[1])))
	case "*":
		return svT(Mul(c.int(e.a[0]), c.int(e.a[1])))
	case "/":
		return svT(Div(c.int(e.a[0]), c.int(e.a[1])))
	case "%":
		return svT(Mod(c.int(e.a[0]), c.int(e.a[1])))
	case "++":
		x, y := c.seqOf(c.eval(e.a[0])), c.seqOf(c.eval(e.a[1]))
		return SV{seq: &SeqV{n: Add(x.n, y.n), at: func(i *Term) *Term { return Ite(Lt(i, x.n), x.at(i), y.at(Sub(i, x.n))) }}}
	}
	serr(e, "bad operator %s", e.s)
	return SV{}
}

func (c *evalCtx) quant(e *Expr) SV {
	vars := map[string]SV{}
	var bvs []*Term
	guard := True
	for _, p := range e.vars {
		srt, t := c.specType(p.typ)
		b := BVar(p.name, srt)
		bvs = append(bvs, b)
		vars[p.name] = SV{v: b, sort: srt, t: t}
	}
	n := c.with(vars)
	body := n.bool(e.a[0])
	var pats [][]*Term
	for _, p := range e.pats {
		var ts []*Term
		for _, x := range p {
			ts = append(ts, n.force(n.eval(x)).term())
		}
		pats = append(pats, ts)
	}
	if e.kind == "forall" {
		return svT(mkForall(bvs, pats, Imp(guard, body)))
	}
	return svT(Not(mkForall(bvs, pats, Not(And(guard, body)))))
}

// mkForall chooses triggers: array reads at v+c are re-indexed so that the trigger is a plain read.
func mkForall(bvs []*Term, pats [][]*Term, body *Term) *Term {
	if len(pats) > 0 || len(bvs) != 1 || bvs[0].sort != SInt {
		return Forall(bvs, pats, body)
	}
	v := bvs[0]
	type cand struct{ arr, c *Term }
	var cs []cand
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.bound || seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == "forall" {
			walk(t.args[0])
			return
		}
		if t.op == "select" && !t.args[0].bound && strings.HasPrefix(t.args[0].sort, "(Array Int") {
			l := linOf(t.args[1])
			if k, ok := l.co[v.id]; ok && k.Cmp(big.NewInt(1)) == 0 {
				r := Sub(t.args[1], v)
				if !r.bound {
					for _, x := range cs {
						if x.arr == t.args[0] && x.c == r {
							return
						}
					}
					cs = append(cs, cand{t.args[0], r})
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	if len(cs) == 0 {
		return Forall(bvs, nil, body)
	}
	var out []*Term
	for _, x := range cs {
		w := BVar("i", SInt)
		nb := Subst(body, map[*Term]*Term{v: Sub(w, x.c)}, map[int]*Term{})
		out = append(out, Forall([]*Term{w}, [][]*Term{{mk("select", elemSort(x.arr.sort), x.arr, w)}}, nb))
		if len(out) >= 4 {
			break
		}
	}
	return And(out...)
}

func (c *evalCtx) ghostHeap(g *GhostDef) string {
	c = c.inPkg(g.pkg)
	ks, _ := c.specType(g.key)
	vs, _ := c.specType(g.val)
	n := regHeap("G:"+g.name, vs)
	heapKey[n] = ks
	return n
}

func (c *evalCtx) call(e *Expr) SV {
	arg := func(i int) SV { return c.force(c.eval(e.a[i])) }
	need := func(n int) {
		if len(e.a) != n {
			serr(e, "%s needs %d arguments", e.s, n)
		}
	}
	if g, ok := theSpec.ghosts[e.s]; ok {
		need(1)
		n := c.ghostHeap(g)
		k := arg(0).term()
		if want := heapKey[n]; k.sort != want {
			if want == "" {
				want = SAddr
			}
			if k.sort != want {
				serr(e, "%s is not indexed by a %s", e.s, k.sort)
			}
		}
		srt, t := c.inPkg(g.pkg).specType(g.val)
		return SV{v: Select(getH(c.heap, n), k), sort: srt, t: t}
	}
	if d, ok := theSpec.preds[e.s]; ok {
		if len(d.params) != len(e.a) {
			serr(e, "%s needs %d arguments", e.s, len(d.params))
		}
		return c.pred(e, d)
	}
	for _, d := range dtByName {
		if d.ctor == e.s {
			need(len(d.fields))
			var as []*Term
			for i := range e.a {
				as = append(as, arg(i).term())
			}
			return svT(mk(d.ctor, d.name, as...))
		}
	}
	switch e.s {
	case "len":
		x := arg(0)
		if x.seq != nil {
			return svT(x.seq.n)
		}
		switch v := x.v.(type) {
		case *SliceV:
			return svT(v.len)
		case *Term:
			if v.sort == SStr {
				return svT(Slen(v))
			}
		}
		serr(e, "len")
	case "cap":
		return svT(arg(0).v.(*SliceV).cap)
	case "arr":
		return svT(arg(0).v.(*SliceV).arr)
	case "off":
		return svT(arg(0).v.(*SliceV).off)
	case "content":
		x := arg(0)
		s := x.v.(*SliceV)
		return svT(contentH(c.heap, s.arr, s.et))
	case "bytes", "seq":
		if len(e.a) == 3 {
			a, f, n := arg(0).term(), arg(1).term(), arg(2).term()
			return SV{seq: &SeqV{n: n, at: func(i *Term) *Term { return Select(a, Add(f, i)) }, base: a, off: f}}
		}
		return SV{seq: c.seqOf(arg(0))}
	case "dec":
		n := arg(0).term()
		l := decLen(n)
		return SV{seq: &SeqV{n: l, at: func(i *Term) *Term { return decAt(n, i) }}}
	case "alen":
		return svT(Alen(arg(0).term()))
	case "ebase":
		return svT(ebase(arg(0).term()))
	case "eidx":
		return svT(eidx(arg(0).term()))
	case "rid":
		return svT(Rid(arg(0).term()))
	case "fresh":
		x := arg(0)
		if s, ok := x.v.(*SliceV); ok {
			return svT(Lt(Rid(s.arr), I(int64(-c.oldAlloc))))
		}
		return svT(Lt(Rid(x.term()), I(int64(-c.oldAlloc))))
	case "inmap": // inmap(m, k): the map has the key
		m := c.force(c.eval(e.a[0]))
		mt := mapTypeOf(m.t)
		if mt == nil {
			serr(e, "inmap: not a map")
		}
		dom, _ := mapLeaves(mt)
		return svT(Select(Select(getH(c.heap, dom), m.term()), c.eval(e.a[1]).term()))
	case "chancap":
		return SV{v: mk("chancap", SInt, c.force(c.eval(e.a[0])).term()), sort: SInt}
	case "pow2":
		return svT(pow2(arg(0).term()))
	case "ispow2":
		return svT(mk("ispow2", SBool, arg(0).term()))
	case "rmod":
		return svT(rmod(arg(0).term(), arg(1).term()))
	case "wrap":
		return svT(wrapTerm(arg(0).term(), types.Typ[types.Uint64]))
	case "min":
		a, b := arg(0).term(), arg(1).term()
		return svT(Ite(Le(a, b), a, b))
	case "max":
		a, b := arg(0).term(), arg(1).term()
		return svT(Ite(Le(a, b), b, a))
	case "is":
		need(2)
		return svT(hasType(arg(1).term(), c.goTypeExpr(e.a[0])))
	case "as":
		need(2)
		t := c.goTypeExpr(e.a[0])
		v := unboxVal(arg(1).term(), t)
		return SV{v: v, t: t, sort: valSort(v)}
	case "box":
		need(1)
		x := arg(0)
		return SV{v: boxVal(x.v, x.t), sort: SIface}
	case "cast": // cast(T, ref): give a Go pointer type to a reference
		need(2)
		t := c.goTypeExpr(e.a[0])
		return SV{v: arg(1).term(), sort: SAddr, t: t}
	case "zero":
		t := c.goTypeExpr(e.a[0])
		v := zeroVal(t)
		return SV{v: v, t: t, sort: valSort(v)}
	case "errstr": // errstr(T, s): the error value T{s}
		t := c.goTypeExpr(e.a[0])
		return svT(mk("iface_s", SIface, I(int64(typeTag(t))), arg(1).term()))
	case "entry": // value at loop entry
		if c.pre == nil {
			serr(e, "entry() outside a loop invariant")
		}
		n := c.with(c.preVars)
		n.heap = c.pre
		r := n.force(n.eval(e.a[0]))
		r.h = c.pre
		return r
	case "same":
		a := c.force(c.eval(e.a[0]))
		n := *c
		n.heap = c.old
		b := n.force(n.eval(e.a[0]))
		return svT(valEq(a.v, b.v))
	case "constarr":
		return svT(ConstArr(arrSort(SInt, SInt), arg(0).term()))
	case "uf": // uninterpreted: uf("name", resultType, args...)
		need3 := len(e.a) >= 2
		if !need3 {
			serr(e, "uf")
		}
		srt, t := c.specType(e.a[1].s)
		var as []*Term
		for i := 2; i < len(e.a); i++ {
			as = append(as, arg(i).term())
		}
		r := mk("uf$"+e.a[0].s, srt, as...)
		return SV{v: r, sort: srt, t: t}
	case "mkarr": // the array whose first elements are the given sequence (and zero elsewhere unspecified)
		q := c.seqOf(arg(0))
		if c.st == nil {
			serr(e, "mkarr outside a ghost assignment")
		}
		es := SInt
		a := Fresh("arrc", arrSort(SInt, es))
		i := BVar("i", SInt)
		sel := Select(a, i)
		c.st.assume(Forall([]*Term{i}, [][]*Term{{sel}}, Imp(And(Le(I(0), i), Lt(i, q.n)), Eq(sel, q.at(i)))))
		return svT(a)
	case "splice": // splice(a, pos, s): the array a with the bytes of s at pos
		need(3)
		if c.st == nil {
			serr(e, "splice outside a ghost assignment")
		}
		a, pos, q := arg(0).term(), arg(1).term(), c.seqOf(arg(2))
		r := Fresh("arrs", arrSort(SInt, SInt))
		i := BVar("i", SInt)
		sel := Select(r, i)
		c.st.assume(Forall([]*Term{i}, [][]*Term{{sel}}, Eq(sel, Ite(And(Le(pos, i), Lt(i, Add(pos, q.n))), q.at(Sub(i, pos)), Select(a, i)))))
		c.st.assume(mk("uf$spl", SBool, r, a)) // handle for lemmas about splices
		return svT(r)
	case "iselem":
		return svT(isElem(arg(0).term()))
	case "infield": // infield("pkg.T.f", p): p is the address of a field f
		return svT(isFld(arg(1).term(), I(int64(c.fieldIDStr(e.a[0].s)))))
	case "owner": // owner("pkg.T.f", p): the object whose field f has address p
		i := strings.LastIndexByte(e.a[0].s, '.')
		return SV{v: fbase(arg(1).term()), sort: SAddr, t: types.NewPointer(c.goType(e.a[0].s[:i]))}
	case "tag":
		return svT(I(int64(typeTag(c.goTypeExpr(e.a[0])))))
	case "fidOf":
		return svT(mk("fid", SInt, arg(0).term()))
	case "fbase":
		return svT(fbase(arg(0).term()))
	}
	serr(e, "unknown function %s", e.s)
	return SV{}
}

func (c *evalCtx) fieldIDStr(s string) int {
	i := strings.LastIndexByte(s, '.')
	t := c.goType(s[:i])
	return fieldIDByName(structKey(t), s[i+1:])
}

func (c *evalCtx) goTypeExpr(e *Expr) types.Type {
	switch e.kind {
	case "ident":
		return c.goType(e.s)
	case "str":
		return c.goType(e.s)
	case "unary":
		if e.s == "*" {
			return types.NewPointer(c.goTypeExpr(e.a[0]))
		}
	case "field":
		return c.goType(e.a[0].s + "." + e.s)
	}
	serr(e, "type expected")
	return nil
}

func (c *evalCtx) inPkg(name string) *evalCtx {
	if c.pkg != nil && c.pkg.Pkg.Name() == name {
		return c
	}
	n := *c
	for _, p := range thePkgs {
		if p.Pkg.Name() == name {
			n.pkg = p
		}
	}
	return &n
}

func (c *evalCtx) predPkg(d *PredDef) *ssa.Package {
	for _, p := range thePkgs {
		if p.Pkg.Name() == d.pkg {
			return p
		}
	}
	return c.pkg
}

func (c *evalCtx) pred(e *Expr, d *PredDef) SV {
	if c.depth > 60 {
		serr(e, "predicate recursion")
	}
	if d.rec || d.body == nil {
		n := *c
		n.pkg = c.predPkg(d)
		var as []*Term
		for i := range e.a {
			srt, _ := n.specType(d.params[i].typ)
			v := c.force(c.eval(e.a[i]))
			t, ok := coerceNil(v, SV{v: Const("x", srt)}).(*Term)
			if !ok {
				t = v.term()
			}
			as = append(as, t)
		}
		srt, t := n.specType(d.ret)
		return SV{v: mk("rec$"+d.name, srt, as...), sort: srt, t: t}
	}
	vars := map[string]SV{}
	n := *c
	n.pkg = c.predPkg(d)
	for i, p := range d.params {
		v := c.eval(e.a[i])
		if p.typ != "" && p.typ != "seq" {
			srt, t := n.specType(p.typ)
			if tt, ok := v.v.(*Term); ok && !v.lazy {
				if tt == nilMark {
					v = SV{v: zeroScalar(srt), sort: srt}
				} else if tt.sort != srt {
					serr(e, "argument %s of %s has sort %s, not %s", p.name, d.name, tt.sort, srt)
				} else if v.t != nil && t != nil && isPtrTo(v.t) && isPtrTo(t) && !types.Identical(v.t, t) {
					serr(e, "argument %s of %s has type %s, not %s", p.name, d.name, v.t, t)
				}
				v.sort = srt
				v.t = t
			}
		}
		vars[p.name] = v
	}
	n.vars = vars
	n.depth = c.depth + 1
	return n.eval(d.body)
}

// ---------------------------------------------------------------- recursive definitions

type recDef struct {
	params []*Term
	body   *Term
	depth  int
}

var recDefs = map[string]*recDef{}

func installSpec(sp *Spec) {
	theSpec = sp
	for _, d := range sp.dts {
		dtByName[d.name] = d
	}
	ctx := &evalCtx{}
	for _, d := range sp.dts {
		var sb strings.Builder
		fmt.Fprintf(&sb, "(declare-datatypes ((%s 0)) (((%s", d.name, d.ctor)
		for _, f := range d.fields {
			srt, _ := ctx.specType(f.typ)
			fmt.Fprintf(&sb, " (%s.%s %s)", d.ctor, f.name, srt)
			dtSyms[d.ctor+"."+f.name] = true
		}
		sb.WriteString("))))")
		dtSyms[d.ctor] = true
		datatypes = append(datatypes, sb.String())
	}
	for _, d := range sp.predSeq {
		if !d.rec || d.body == nil {
			continue
		}
		c := &evalCtx{}
		c.pkg = c.predPkg(d)
		vars := map[string]SV{}
		var ps []*Term
		for _, p := range d.params {
			srt, t := c.specType(p.typ)
			b := BVar(p.name, srt)
			ps = append(ps, b)
			vars[p.name] = SV{v: b, sort: srt, t: t}
		}
		c.vars = vars
		c.heap = nil
		body := c.force(c.eval(d.body)).term()
		recDefs["rec$"+d.name] = &recDef{params: ps, body: body, depth: d.depth}
	}
}

// saturate adds definitional instances of recursive functions occurring in the query.
func saturate(as []*Term) []*Term {
	if len(recDefs) == 0 {
		return as
	}
	type item struct {
		t *Term
		d int
	}
	seen := map[int]bool{}
	inst := map[int]bool{}
	var out = append([]*Term{}, as...)
	var queue []item
	for _, a := range as {
		queue = append(queue, item{a, 0})
	}
	for len(queue) > 0 {
		it := queue[0]
		queue = queue[1:]
		var apps []*Term
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t.id] {
				return
			}
			seen[t.id] = true
			if strings.HasPrefix(t.op, "rec$") && !t.bound {
				apps = append(apps, t)
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		walk(it.t)
		for _, ap := range apps {
			d := recDefs[ap.op]
			if d == nil || it.d >= d.depth || inst[ap.id] {
				continue
			}
			inst[ap.id] = true
			m := map[*Term]*Term{}
			for i, p := range d.params {
				m[p] = ap.args[i]
			}
			b := Subst(d.body, m, map[int]*Term{})
			eq := mk("=", SBool, ap, b)
			out = append(out, eq)
			queue = append(queue, item{b, it.d + 1})
		}
	}
	return out
}

// ---------------------------------------------------------------- arithmetic helpers

var p2 = func() []*big.Int {
	var r []*big.Int
	for i := 0; i <= 64; i++ {
		r = append(r, new(big.Int).Lsh(big.NewInt(1), uint(i)))
	}
	return r
}()

func pow2(k *Term) *Term {
	if isInt(k) && k.ival.IsInt64() && k.ival.Int64() >= 0 && k.ival.Int64() < 4096 {
		return IntBig(new(big.Int).Lsh(big.NewInt(1), uint(k.ival.Int64())))
	}
	return mk("pow2", SInt, k)
}

func rmod(a, b *Term) *Term {
	if isInt(b) {
		return Mod(a, b)
	}
	return mk("rmod", SInt, a, b)
}

// decimal digits: rec functions declen and d10 of base.vc
func decLen(n *Term) *Term { return mk("rec$declen", SInt, n) }

func decAt(n, i *Term) *Term { // i-th digit character from the left
	return Add(I('0'), Mod(mk("rec$d10", SInt, n, Sub(Sub(decLen(n), I(1)), i)), I(10)))
}

func init() {
	k := BVar("k", SInt)
	pk := mk("pow2", SInt, k)
	var cs []*Term
	for i := 0; i <= 64; i++ {
		cs = append(cs, Imp(Eq(k, I(int64(i))), Eq(pk, IntBig(p2[i]))))
	}
	addAxiom("pow2", Forall([]*Term{k}, [][]*Term{{pk}}, And(cs...)))
	v := BVar("v", SInt)
	var ds []*Term
	for i := 0; i <= 63; i++ {
		ds = append(ds, Eq(v, IntBig(p2[i])))
	}
	ip := mk("ispow2", SBool, v)
	addAxiom("ispow2", Forall([]*Term{v}, [][]*Term{{ip}}, Eq(ip, Or(ds...))))
	// x & m == x mod (m+1) when m+1 is a power of two (checked per width by the bit-vector lemma band_mod)
	x, m := BVar("x", SInt), BVar("m", SInt)
	ba := mk("band", SInt, x, m)
	addAxiom("band", Forall([]*Term{x, m}, [][]*Term{{ba}}, And(
		Imp(And(Le(I(0), x), Le(I(0), m)), And(Le(I(0), ba), Le(ba, m), Le(ba, x))),
		Imp(And(Le(I(0), x), Le(I(0), m), mk("ispow2", SBool, Add(m, I(1)))), Eq(ba, mk("rmod", SInt, x, Add(m, I(1))))))))
	// modulo facts (lemma rmod_*)
	a, b, s := BVar("a", SInt), BVar("b", SInt), BVar("s", SInt)
	ra, rb := mk("rmod", SInt, a, s), mk("rmod", SInt, b, s)
	addAxiom("rmod", Forall([]*Term{a, s}, [][]*Term{{ra}}, Imp(Lt(I(0), s), And(Le(I(0), ra), Lt(ra, s), Imp(And(Le(I(0), a), Lt(a, s)), Eq(ra, a))))))
	addAxiom("rmod", Forall([]*Term{a, b, s}, [][]*Term{{ra, rb}}, Imp(And(Lt(I(0), s), Lt(a, b), Lt(b, Add(a, s))), Ne(ra, rb))))
	addAxiom("rmod", Forall([]*Term{a, b, s}, [][]*Term{{ra, rb}}, Imp(And(Lt(I(0), s), Eq(b, Add(a, s))), Eq(ra, rb))))
}

func isPtrTo(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// atomicElem gives the type of the value kept in an atomic.
func atomicElem(t types.Type) types.Type {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync/atomic" {
		return nil
	}
	switch n.Obj().Name() {
	case "Uint64":
		return types.Typ[types.Uint64]
	case "Uint32":
		return types.Typ[types.Uint32]
	case "Bool":
		return types.Typ[types.Bool]
	case "Pointer":
		return types.NewPointer(n.TypeArgs().At(0))
	}
	return nil
}
