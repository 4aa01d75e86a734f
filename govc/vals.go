package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is *Term (scalar), *SliceV, *StructV, *TupleV, *ClosureV or *IterV.
type Val interface{}

type SliceV struct {
	arr, off, len, cap *Term
	et                 types.Type
}
type StructV struct {
	fs []Val
	t  types.Type
}
type TupleV struct{ vs []Val }
type ClosureV struct {
	fn   *ssa.Function
	bind []Val
	recv Val         // bound method value on an extern method
	ext  *types.Func // extern bound method
}
type IterV struct {
	str *Term
	pos *Term
	id  int
}

type leaf struct {
	path string // suffix
	sort string
	typ  types.Type
}

// ---------------------------------------------------------------- types

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Pkg() != nil && o.Pkg().Path() == pkg && o.Name() == name
}

const repoPrefix = "github.com/QuangTung97/go-memcache"

func typeKey(t types.Type) string {
	t = types.Unalias(t)
	s := types.TypeString(t, func(p *types.Package) string {
		if strings.HasPrefix(p.Path(), repoPrefix) {
			return p.Name()
		}
		return p.Path()
	})
	return canonType(s)
}

var reBasic = regexp.MustCompile(`\b(uint8|rune)\b`)

func canonType(s string) string {
	if !strings.Contains(s, "uint8") && !strings.Contains(s, "rune") {
		return s
	}
	return reBasic.ReplaceAllStringFunc(s, func(w string) string {
		if w == "rune" {
			return "int32"
		}
		return "byte"
	})
}

// opaqueStruct reports struct types whose insides are not modelled field by field, with their modelled leaves.
func opaqueStruct(t types.Type) ([]leaf, bool) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return nil, false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return nil, false
	}
	o := n.Obj()
	if o.Pkg() == nil || strings.HasPrefix(o.Pkg().Path(), repoPrefix) {
		return nil, false
	}
	switch o.Pkg().Path() + "." + o.Name() {
	case "sync/atomic.Uint64", "sync/atomic.Int64", "sync/atomic.Uint32", "sync/atomic.Int32":
		return []leaf{{"v", SInt, nil}}, true
	case "sync/atomic.Bool":
		return []leaf{{"v", SBool, nil}}, true
	case "sync/atomic.Pointer":
		return []leaf{{"v", SAddr, nil}}, true
	case "sync.Pool":
		return []leaf{{"New", SFn, nil}}, true
	case "time.Time":
		return []leaf{{"t", SInt, nil}}, true
	}
	return nil, true
}

func scalarSort(t types.Type) (string, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return SAddr, true
		case u.Info()&types.IsInteger != 0:
			return SInt, true
		case u.Info()&types.IsBoolean != 0:
			return SBool, true
		case u.Info()&types.IsString != 0:
			return SStr, true
		case u.Info()&types.IsFloat != 0:
			return "Real", true
		case u.Kind() == types.UntypedNil:
			return SAddr, true
		}
	case *types.Pointer, *types.Chan, *types.Map:
		return SAddr, true
	case *types.Signature:
		return SFn, true
	case *types.Interface:
		return SIface, true
	}
	return "", false
}

func structOf(t types.Type) (*types.Struct, bool) {
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

func structKey(t types.Type) string {
	return typeKey(t)
}

// ---------------------------------------------------------------- field ids

var fieldIDs = map[string]int{}
var fieldNames []string

func fieldID(structT types.Type, idx int) int {
	s, _ := structOf(structT)
	return fieldIDByName(structKey(structT), s.Field(idx).Name())
}
func fieldIDByName(sk, f string) int {
	k := sk + "." + f
	if id, ok := fieldIDs[k]; ok {
		return id
	}
	id := len(fieldNames) + 1
	fieldIDs[k] = id
	fieldNames = append(fieldNames, k)
	return id
}

// ---------------------------------------------------------------- integer ranges

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits, signed := intBits(t)
	one := big.NewInt(1)
	if signed {
		hi = new(big.Int).Lsh(one, uint(bits-1))
		lo = new(big.Int).Neg(hi)
		hi = new(big.Int).Sub(hi, one)
	} else {
		lo = new(big.Int)
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
	}
	return lo, hi, true
}

func intBits(t types.Type) (int, bool) {
	b := t.Underlying().(*types.Basic)
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false
	}
	return 64, true
}

func inRange(v *Term, t types.Type) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return True
	}
	return And(Le(IntBig(lo), v), Le(v, IntBig(hi)))
}

// ---------------------------------------------------------------- strings

var strLits = map[string]*Term{}
var strLitVal = map[string]string{}

func StrLit(s string) *Term {
	if t, ok := strLits[s]; ok {
		return t
	}
	name := fmt.Sprintf("str$%d_%s", len(strLits), sanitize(trunc(s, 12)))
	t := Const(name, SStr)
	strLits[s] = t
	strLitVal[name] = s
	var fs []*Term
	fs = append(fs, Eq(mk("slen", SInt, t), I(int64(len(s)))))
	for i := 0; i < len(s); i++ {
		fs = append(fs, Eq(mk("sat", SInt, t, I(int64(i))), I(int64(s[i]))))
	}
	addAxiom(name, And(fs...))
	return t
}
func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func Slen(s *Term) *Term {
	if v, ok := strLitVal[s.op]; ok && len(s.args) == 0 {
		return I(int64(len(v)))
	}
	return mk("slen", SInt, s)
}
func Sat(s, i *Term) *Term {
	if v, ok := strLitVal[s.op]; ok && len(s.args) == 0 && isInt(i) {
		k := i.ival.Int64()
		if k >= 0 && k < int64(len(v)) {
			return I(int64(v[k]))
		}
	}
	return mk("sat", SInt, s, i)
}

func init() {
	s := BVar("s", SStr)
	i := BVar("i", SInt)
	sl := mk("slen", SInt, s)
	addAxiom("slen", Forall([]*Term{s}, [][]*Term{{sl}}, And(Le(I(0), sl), Le(sl, IntBig(maxLen)))))
	sa := mk("sat", SInt, s, i)
	addAxiom("sat", Forall([]*Term{s, i}, [][]*Term{{sa}}, And(Le(I(0), sa), Le(sa, I(255)))))
	// region ids
	a := BVar("a", SAddr)
	f := BVar("f", SInt)
	e := mk("elem", SAddr, a, i)
	addAxiom("rid", Forall([]*Term{a, i}, [][]*Term{{e}}, Eq(mk("rid", SInt, e), mk("rid", SInt, a))))
	fl := mk("fld", SAddr, f, a)
	addAxiom("rid", Forall([]*Term{a, f}, [][]*Term{{fl}}, Eq(mk("rid", SInt, fl), mk("rid", SInt, a))))
	rt := mk("root", SAddr, i)
	addAxiom("rid", Forall([]*Term{i}, [][]*Term{{rt}}, Eq(mk("rid", SInt, rt), i)))
	addAxiom("rid", Eq(mk("rid", SInt, Null), I(0)))
	// array allocation size
	al := mk("alen", SInt, a)
	addAxiom("alen", Forall([]*Term{a}, [][]*Term{{al}}, And(Le(I(0), al), Le(al, IntBig(maxLen)))))
}

var maxLen = new(big.Int).Lsh(big.NewInt(1), 48)

func Alen(a *Term) *Term { return mk("alen", SInt, a) }

// ---------------------------------------------------------------- functions values

var fnConsts = map[string]*ClosureV{}
var fnSeq int
var FnNil = Const("fn_nil", SFn)

func fnTerm(c *ClosureV) *Term {
	for k, v := range fnConsts {
		if v == c {
			return Const(k, SFn)
		}
	}
	if len(c.bind) == 0 && c.recv == nil && c.fn != nil {
		k := "fn$" + sanitize(c.fn.String())
		if _, ok := fnConsts[k]; !ok {
			fnConsts[k] = c
		}
		addFnNotNil(k)
		return Const(k, SFn)
	}
	fnSeq++
	k := fmt.Sprintf("fn$%d", fnSeq)
	fnConsts[k] = c
	addFnNotNil(k)
	return Const(k, SFn)
}

func addFnNotNil(k string) {
	if len(axioms[k]) == 0 {
		// printed as a raw inequality: the simplifier would fold it away
		addAxiom(k, mk("not", SBool, mk("=", SBool, Const(k, SFn), FnNil)))
	}
}

// ---------------------------------------------------------------- interface type tags

var typeTags = map[string]int{}
var tagTypes []types.Type

func typeTag(t types.Type) int {
	k := canonType(types.TypeString(types.Unalias(t), nil))
	if n, ok := typeTags[k]; ok {
		return n
	}
	n := len(tagTypes) + 1
	typeTags[k] = n
	tagTypes = append(tagTypes, t)
	return n
}

// boxKind tells which interface constructor carries a value of type t.
func boxKind(t types.Type) string {
	if _, ok := t.Underlying().(*types.Slice); ok {
		return "b"
	}
	if s, ok := structOf(t); ok {
		if s.NumFields() == 1 {
			return boxKind(s.Field(0).Type())
		}
		return "i"
	}
	srt, ok := scalarSort(t)
	if !ok {
		return "i"
	}
	switch srt {
	case SAddr:
		return "a"
	case SStr:
		return "s"
	case SFn:
		return "f"
	case SInt:
		return "i"
	case SBool:
		return "i"
	case SIface:
		return "x"
	}
	return "i"
}

func boxVal(v Val, t types.Type) *Term {
	tag := I(int64(typeTag(t)))
	inner := v
	it := t
	for {
		sv, ok := inner.(*StructV)
		if !ok {
			break
		}
		s, _ := structOf(it)
		if s.NumFields() != 1 {
			return mk("iface_i", SIface, tag, Fresh("boxed", SInt))
		}
		inner = sv.fs[0]
		it = s.Field(0).Type()
	}
	switch x := inner.(type) {
	case *Term:
		switch x.sort {
		case SAddr:
			return mk("iface_a", SIface, tag, x)
		case SStr:
			return mk("iface_s", SIface, tag, x)
		case SInt:
			return mk("iface_i", SIface, tag, x)
		case SBool:
			return mk("iface_i", SIface, tag, Ite(x, I(1), I(0)))
		case SFn:
			return mk("iface_f", SIface, tag, x)
		}
		return mk("iface_i", SIface, tag, Fresh("boxed", SInt))
	case *ClosureV:
		return mk("iface_f", SIface, tag, fnTerm(x))
	case *SliceV:
		return mk("iface_b", SIface, tag, x.arr, x.off, x.len, x.cap)
	}
	return mk("iface_i", SIface, tag, Fresh("boxed", SInt))
}

// hasType returns the condition that interface value i holds dynamic type t.
func hasType(i *Term, t types.Type) *Term {
	tag := I(int64(typeTag(t)))
	switch k := boxKind(t); k {
	case "a", "s", "i", "b", "f":
		if strings.HasPrefix(i.op, "iface_") {
			if i.op != "iface_"+k {
				return False
			}
			return Eq(i.args[0], tag)
		}
		return And(mk("is-iface_"+k, SBool, i), Eq(mk("itag_"+k, SInt, i), tag))
	}
	return Fresh("hastype", SBool)
}

func unboxVal(i *Term, t types.Type) Val {
	get := func(sel, srt string, k string, n int) *Term {
		if i.op == "iface_"+k {
			return i.args[n]
		}
		return mk(sel, srt, i)
	}
	if s, ok := structOf(t); ok {
		if s.NumFields() == 1 {
			return &StructV{fs: []Val{unboxVal(i, s.Field(0).Type())}, t: t}
		}
		return freshVal("unboxed", t)
	}
	switch boxKind(t) {
	case "a":
		return get("ipay_a", SAddr, "a", 1)
	case "s":
		return get("ipay_s", SStr, "s", 1)
	case "f":
		x := get("ipay_f", SFn, "f", 1)
		if c, ok := fnConsts[x.op]; ok {
			return c
		}
		return x
	case "i":
		x := get("ipay_i", SInt, "i", 1)
		if srt, _ := scalarSort(t); srt == SBool {
			return Eq(x, I(1))
		}
		return x
	case "b":
		return &SliceV{arr: get("ipb_arr", SAddr, "b", 1), off: get("ipb_off", SInt, "b", 2), len: get("ipb_len", SInt, "b", 3), cap: get("ipb_cap", SInt, "b", 4),
			et: t.Underlying().(*types.Slice).Elem()}
	}
	return freshVal("unboxed", t)
}

// ---------------------------------------------------------------- fresh, zero

func freshVal(name string, t types.Type) Val {
	if ls, ok := opaqueStruct(t); ok {
		sv := &StructV{t: t}
		for _, l := range ls {
			sv.fs = append(sv.fs, Fresh(name+"."+l.path, l.sort))
		}
		return sv
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return &SliceV{arr: Fresh(name+".arr", SAddr), off: Fresh(name+".off", SInt), len: Fresh(name+".len", SInt), cap: Fresh(name+".cap", SInt), et: u.Elem()}
	case *types.Struct:
		sv := &StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.fs = append(sv.fs, freshVal(name+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return sv
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.vs = append(tv.vs, freshVal(fmt.Sprintf("%s.%d", name, i), u.At(i).Type()))
		}
		return tv
	}
	s, ok := scalarSort(t)
	if !ok {
		unsupported("fresh value of type %s", t)
	}
	return Fresh(name, s)
}

func zeroScalar(s string) *Term {
	switch s {
	case SInt:
		return I(0)
	case SBool:
		return False
	case SAddr:
		return Null
	case SStr:
		return StrLit("")
	case SIface:
		return NilIface
	case SFn:
		return FnNil
	case "Real":
		return Const("0.0", "Real")
	}
	panic("zeroScalar " + s)
}

func zeroVal(t types.Type) Val {
	if ls, ok := opaqueStruct(t); ok {
		sv := &StructV{t: t}
		for _, l := range ls {
			sv.fs = append(sv.fs, zeroScalar(l.sort))
		}
		return sv
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return &SliceV{arr: Null, off: I(0), len: I(0), cap: I(0), et: u.Elem()}
	case *types.Struct:
		sv := &StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.fs = append(sv.fs, zeroVal(u.Field(i).Type()))
		}
		return sv
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.vs = append(tv.vs, zeroVal(u.At(i).Type()))
		}
		return tv
	}
	s, ok := scalarSort(t)
	if !ok {
		unsupported("zero value of type %s", t)
	}
	return zeroScalar(s)
}

type unsupportedErr struct{ msg string }

func unsupported(f string, a ...interface{}) {
	panic(unsupportedErr{fmt.Sprintf(f, a...)})
}

// valEq builds structural equality of two values.
func valEq(a, b Val) *Term {
	switch x := a.(type) {
	case *Term:
		y := asTerm(b)
		if x.sort == SStr && y.sort == SStr {
			return strEq(x, y)
		}
		return Eq(x, y)
	case *ClosureV:
		return Eq(fnTerm(x), asTerm(b))
	case *StructV:
		y := b.(*StructV)
		var cs []*Term
		for i := range x.fs {
			cs = append(cs, valEq(x.fs[i], y.fs[i]))
		}
		return And(cs...)
	case *SliceV:
		y := b.(*SliceV)
		return And(Eq(x.arr, y.arr), Eq(x.off, y.off), Eq(x.len, y.len), Eq(x.cap, y.cap))
	case *TupleV:
		y := b.(*TupleV)
		var cs []*Term
		for i := range x.vs {
			cs = append(cs, valEq(x.vs[i], y.vs[i]))
		}
		return And(cs...)
	}
	panic(fmt.Sprintf("valEq %T", a))
}

func asTerm(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *ClosureV:
		return fnTerm(x)
	}
	panic(unsupportedErr{fmt.Sprintf("scalar expected, got %T", v)})
}

// strEq relates string equality with literals to their bytes.
func strEq(a, b *Term) *Term {
	if a == b {
		return True
	}
	la, oka := strLitVal[a.op]
	lb, okb := strLitVal[b.op]
	if oka && okb && len(a.args) == 0 && len(b.args) == 0 {
		return B(la == lb)
	}
	if oka && !okb {
		a, b, lb, okb = b, a, la, true
	}
	if okb {
		var cs []*Term
		cs = append(cs, Eq(Slen(a), I(int64(len(lb)))))
		for i := 0; i < len(lb); i++ {
			cs = append(cs, Eq(Sat(a, I(int64(i))), I(int64(lb[i]))))
		}
		return And(cs...)
	}
	return Eq(a, b)
}

func iteVal(c *Term, a, b Val) Val {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	switch x := a.(type) {
	case *Term:
		return Ite(c, x, asTerm(b))
	case *ClosureV:
		if a == b {
			return a
		}
		return Ite(c, fnTerm(x), asTerm(b))
	case *SliceV:
		y := b.(*SliceV)
		return &SliceV{arr: Ite(c, x.arr, y.arr), off: Ite(c, x.off, y.off), len: Ite(c, x.len, y.len), cap: Ite(c, x.cap, y.cap), et: x.et}
	case *StructV:
		y := b.(*StructV)
		r := &StructV{t: x.t}
		for i := range x.fs {
			r.fs = append(r.fs, iteVal(c, x.fs[i], y.fs[i]))
		}
		return r
	case *TupleV:
		y := b.(*TupleV)
		r := &TupleV{}
		for i := range x.vs {
			r.vs = append(r.vs, iteVal(c, x.vs[i], y.vs[i]))
		}
		return r
	}
	panic("iteVal")
}
