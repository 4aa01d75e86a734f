package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Term is a hash-consed SMT term.
type Term struct {
	id    int
	op    string // SMT head symbol; "int" for integer constants, "var" for bound variables
	sort  string
	args  []*Term
	ival  *big.Int
	bvs   []*Term   // forall: bound variables
	pats  [][]*Term // forall: patterns
	bound bool      // contains free bound variables
	size  int
}

var termTab = map[string]*Term{}
var termSeq int

func mk(op, srt string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(srt)
	for _, a := range args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	t := &Term{id: termSeq, op: op, sort: srt, args: args, size: 1}
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
	}
	termTab[k] = t
	return t
}

const (
	SInt   = "Int"
	SBool  = "Bool"
	SAddr  = "Addr"
	SStr   = "Str"
	SIface = "Iface"
	SFn    = "Fn"
)

func arrSort(i, e string) string { return "(Array " + i + " " + e + ")" }
func elemSort(s string) string {
	// (Array I E)
	s = strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
	depth := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return s[i+1:]
			}
		}
	}
	panic("elemSort " + s)
}

func IntBig(v *big.Int) *Term {
	k := "int|" + v.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	t := &Term{id: termSeq, op: "int", sort: SInt, ival: new(big.Int).Set(v), size: 1}
	termTab[k] = t
	return t
}
func I(n int64) *Term { return IntBig(big.NewInt(n)) }

var True = mk("true", SBool)
var False = mk("false", SBool)
var Null = mk("null", SAddr)
var NilIface = mk("iface_nil", SIface)

func B(b bool) *Term {
	if b {
		return True
	}
	return False
}

func Const(name, srt string) *Term { return mk(name, srt) }

var freshSeq int

func Fresh(prefix, srt string) *Term {
	freshSeq++
	return mk(fmt.Sprintf("%s!%d", sanitize(prefix), freshSeq), srt)
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!' || c == '@' || c == '$' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func BVar(name, srt string) *Term {
	termSeq++
	return &Term{id: termSeq, op: fmt.Sprintf("%s?%d", name, termSeq), sort: srt, bound: true, size: 1}
}

func isInt(t *Term) bool { return t.op == "int" }

func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.args[0]
	}
	return mk("not", SBool, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == True || seen[t.id] {
			return true
		}
		if t == False {
			return false
		}
		if t.op == "and" {
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False
		}
	}
	for _, o := range out {
		if seen[Not(o).id] {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", SBool, out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a == True {
			return True
		}
		if a == False || seen[a.id] {
			continue
		}
		if a.op == "or" {
			for _, x := range a.args {
				if !seen[x.id] {
					seen[x.id] = true
					out = append(out, x)
				}
			}
			continue
		}
		seen[a.id] = true
		out = append(out, a)
	}
	for _, o := range out {
		if seen[Not(o).id] {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", SBool, out...)
}

func Imp(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	return mk("=>", SBool, a, b)
}

func Iff(a, b *Term) *Term { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	if b.op == "ite" && b.args[0] == c {
		return Ite(c, a, b.args[2])
	}
	if a.op == "ite" && a.args[0] == c {
		return Ite(c, a.args[1], b)
	}
	return mk("ite", a.sort, c, a, b)
}

// linear normal form helpers: a term as sum of coeff*atom + const
type lin struct {
	c  *big.Int
	co map[int]*big.Int
	at map[int]*Term
}

func linOf(t *Term) lin {
	l := lin{c: new(big.Int), co: map[int]*big.Int{}, at: map[int]*Term{}}
	l.add(t, big.NewInt(1))
	return l
}
func (l *lin) add(t *Term, k *big.Int) {
	switch {
	case t.op == "int":
		l.c.Add(l.c, new(big.Int).Mul(t.ival, k))
	case t.op == "+":
		for _, a := range t.args {
			l.add(a, k)
		}
	case t.op == "*" && len(t.args) == 2 && isInt(t.args[0]):
		l.add(t.args[1], new(big.Int).Mul(k, t.args[0].ival))
	default:
		if l.co[t.id] == nil {
			l.co[t.id] = new(big.Int)
			l.at[t.id] = t
		}
		l.co[t.id].Add(l.co[t.id], k)
		if l.co[t.id].Sign() == 0 {
			delete(l.co, t.id)
			delete(l.at, t.id)
		}
	}
}
func (l *lin) term() *Term {
	ids := make([]int, 0, len(l.co))
	for id := range l.co {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	var parts []*Term
	for _, id := range ids {
		k := l.co[id]
		if k.Cmp(big.NewInt(1)) == 0 {
			parts = append(parts, l.at[id])
		} else {
			parts = append(parts, mk("*", SInt, IntBig(k), l.at[id]))
		}
	}
	if l.c.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, IntBig(l.c))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return mk("+", SInt, parts...)
}

func Add(as ...*Term) *Term {
	l := lin{c: new(big.Int), co: map[int]*big.Int{}, at: map[int]*Term{}}
	for _, a := range as {
		l.add(a, big.NewInt(1))
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := linOf(a)
	l.add(b, big.NewInt(-1))
	return l.term()
}
func Mul(a, b *Term) *Term {
	if isInt(b) {
		a, b = b, a
	}
	if isInt(a) {
		l := lin{c: new(big.Int), co: map[int]*big.Int{}, at: map[int]*Term{}}
		l.add(b, a.ival)
		return l.term()
	}
	return mk("*", SInt, a, b)
}

// Div and Mod are Euclidean (SMT-LIB); callers guarantee a non-negative dividend for Go semantics.
func Div(a, b *Term) *Term {
	if isInt(b) && b.ival.Sign() > 0 {
		if b.ival.Cmp(big.NewInt(1)) == 0 {
			return a
		}
		if isInt(a) {
			q, m := new(big.Int), new(big.Int)
			q.DivMod(a.ival, b.ival, m)
			return IntBig(q)
		}
	}
	return mk("div", SInt, a, b)
}
func Mod(a, b *Term) *Term {
	if isInt(b) && b.ival.Sign() > 0 && isInt(a) {
		return IntBig(new(big.Int).Mod(a.ival, b.ival))
	}
	return mk("mod", SInt, a, b)
}

func Le(a, b *Term) *Term {
	l := linOf(b)
	l.add(a, big.NewInt(-1))
	if len(l.co) == 0 {
		return B(l.c.Sign() >= 0)
	}
	return mk("<=", SBool, a, b)
}
func Lt(a, b *Term) *Term {
	l := linOf(b)
	l.add(a, big.NewInt(-1))
	if len(l.co) == 0 {
		return B(l.c.Sign() > 0)
	}
	return mk("<", SBool, a, b)
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func isCtor(t *Term) bool {
	return t.sort == SAddr && (t.op == "null" || t.op == "root" || t.op == "elem" || t.op == "fld")
}

// distinct reports whether a and b are provably different.
// ridLB: lower bounds of the allocation numbers of symbols and of the pointers stored in heap symbols,
// recorded where the corresponding well-formedness fact is assumed. A name that is created again on another
// path keeps the weakest bound.
var ridLB = map[*Term]int64{}

func noteLB(s *Term, lb int64) {
	if len(s.args) != 0 || isCtor(s) {
		return
	}
	if o, ok := ridLB[s]; ok && o <= lb {
		return
	}
	ridLB[s] = lb
}

func exactRid(t *Term) (int64, bool) {
	for {
		switch t.op {
		case "fld":
			t = t.args[1]
		case "elem":
			t = t.args[0]
		case "root":
			if isInt(t.args[0]) && t.args[0].ival.IsInt64() {
				return t.args[0].ival.Int64(), true
			}
			return 0, false
		case "null":
			return 0, true
		default:
			return 0, false
		}
	}
}

// ridAbove: the allocation number of t is known to be larger than k.
func ridAbove(t *Term, k int64, depth int) bool {
	if depth == 0 {
		return false
	}
	switch t.op {
	case "fld":
		return ridAbove(t.args[1], k, depth-1)
	case "elem":
		return ridAbove(t.args[0], k, depth-1)
	case "root", "null":
		r, ok := exactRid(t)
		return ok && r > k
	case "ite":
		return ridAbove(t.args[1], k, depth-1) && ridAbove(t.args[2], k, depth-1)
	case "select":
		h := t.args[0]
		if h.op == "select" && len(h.args[0].args) == 0 { // array content or table of a heap symbol
			lb, ok := ridLB[h.args[0]]
			return ok && lb > k && (h.args[1].sort != SAddr || ridAbove(h.args[1], lb-1, depth-1))
		}
		lb, ok := ridLB[h]
		return ok && lb > k && (t.args[1].sort != SAddr || ridAbove(t.args[1], lb-1, depth-1))
	}
	if len(t.args) == 0 {
		lb, ok := ridLB[t]
		return ok && lb > k
	}
	return false
}

func distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	switch a.sort {
	case SInt:
		l := linOf(a)
		l.add(b, big.NewInt(-1))
		return len(l.co) == 0 && l.c.Sign() != 0
	case SAddr:
		if k, ok := exactRid(a); ok && k < 0 && ridAbove(b, k, 12) {
			return true
		}
		if k, ok := exactRid(b); ok && k < 0 && ridAbove(a, k, 12) {
			return true
		}
		if isCtor(a) && isCtor(b) {
			if a.op != b.op {
				return true
			}
			for i := range a.args {
				if distinct(a.args[i], b.args[i]) {
					return true
				}
			}
		}
		return false
	case SStr:
		return strings.HasPrefix(a.op, "str$") && strings.HasPrefix(b.op, "str$")
	case SFn:
		return (strings.HasPrefix(a.op, "fn$") || a.op == "fn_nil") && (strings.HasPrefix(b.op, "fn$") || b.op == "fn_nil")
	case SBool:
		return a == Not(b)
	case SIface:
		if strings.HasPrefix(a.op, "iface_") && strings.HasPrefix(b.op, "iface_") {
			if a.op != b.op {
				return true
			}
			for i := range a.args {
				if distinct(a.args[i], b.args[i]) {
					return true
				}
			}
		}
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts %s %s: %s ~ %s", a.sort, b.sort, a, b))
	}
	if distinct(a, b) {
		return False
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.sort == SAddr && isCtor(a) && isCtor(b) && a.op == b.op {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.sort == SInt {
		l := linOf(a)
		l.add(b, big.NewInt(-1))
		if len(l.co) == 0 {
			return B(l.c.Sign() == 0)
		}
	}
	if a.op == "ite" && (isInt(b) || isCtor(b)) && (isInt(a.args[1]) || isInt(a.args[2]) || isCtor(a.args[1]) || isCtor(a.args[2])) {
		return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
	}
	if b.op == "ite" && (isInt(a) || isCtor(a)) && (isInt(b.args[1]) || isInt(b.args[2]) || isCtor(b.args[1]) || isCtor(b.args[2])) {
		return Ite(b.args[0], Eq(a, b.args[1]), Eq(a, b.args[2]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", SBool, a, b)
}
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

func Select(arr, i *Term) *Term {
	for {
		if arr.op == "store" {
			if arr.args[1] == i {
				return arr.args[2]
			}
			if distinct(arr.args[1], i) {
				arr = arr.args[0]
				continue
			}
		}
		if arr.op == "constarr" {
			return arr.args[0]
		}
		break
	}
	return mk("select", elemSort(arr.sort), arr, i)
}
func Store(arr, i, v *Term) *Term {
	if v.op == "select" && v.args[0] == arr && v.args[1] == i {
		return arr
	}
	if arr.op == "store" && arr.args[1] == i {
		arr = arr.args[0]
	}
	return mk("store", arr.sort, arr, i, v)
}
func ConstArr(srt string, v *Term) *Term { return mk("constarr", srt, v) }

func App(name, srt string, args ...*Term) *Term { return mk(name, srt, args...) }

func Root(n *Term) *Term { return mk("root", SAddr, n) }
func Fld(fid int, base *Term) *Term {
	return mk("fld", SAddr, I(int64(fid)), base)
}
func Elem(arr, i *Term) *Term { return mk("elem", SAddr, arr, i) }
func ebase(p *Term) *Term {
	if p.op == "elem" {
		return p.args[0]
	}
	return mk("ebase", SAddr, p)
}
func eidx(p *Term) *Term {
	if p.op == "elem" {
		return p.args[1]
	}
	return mk("eidx", SInt, p)
}
func fbase(p *Term) *Term {
	if p.op == "fld" {
		return p.args[1]
	}
	return mk("fbase", SAddr, p)
}
func isFld(p *Term, id *Term) *Term {
	switch p.op {
	case "fld":
		return Eq(p.args[0], id)
	case "root", "null", "elem":
		return False
	}
	return And(mk("is-fld", SBool, p), Eq(mk("fid", SInt, p), id))
}
func isElem(p *Term) *Term {
	if isCtor(p) {
		return B(p.op == "elem")
	}
	return mk("is-elem", SBool, p)
}
func Rid(a *Term) *Term {
	switch a.op {
	case "fld":
		return Rid(a.args[1])
	case "elem":
		return Rid(a.args[0])
	case "root":
		return a.args[0]
	case "null":
		return I(0)
	case "ite":
		return Ite(a.args[0], Rid(a.args[1]), Rid(a.args[2]))
	}
	return mk("rid", SInt, a)
}

func Forall(bvs []*Term, pats [][]*Term, body *Term) *Term {
	if body == True {
		return True
	}
	if len(bvs) == 0 {
		return body
	}
	// canonical key so structurally identical quantifiers (same bvar objects) are shared
	var sb strings.Builder
	fmt.Fprintf(&sb, "forall")
	for _, v := range bvs {
		fmt.Fprintf(&sb, "|%d", v.id)
	}
	for _, p := range pats {
		sb.WriteString("|p")
		for _, x := range p {
			fmt.Fprintf(&sb, ",%d", x.id)
		}
	}
	fmt.Fprintf(&sb, "|b%d", body.id)
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	t := &Term{id: termSeq, op: "forall", sort: SBool, args: []*Term{body}, bvs: bvs, pats: pats, size: body.size + 1}
	t.bound = hasFreeBound(t, map[int]bool{}, map[string]bool{})
	termTab[k] = t
	return t
}

func isBV(t *Term) bool { return len(t.args) == 0 && t.bound }

func hasFreeBound(t *Term, seen map[int]bool, env map[string]bool) bool {
	if !t.bound && t.op != "forall" {
		return false
	}
	if isBV(t) {
		return !env[t.op]
	}
	if t.op == "forall" {
		e2 := map[string]bool{}
		for k := range env {
			e2[k] = true
		}
		for _, v := range t.bvs {
			e2[v.op] = true
		}
		return hasFreeBound(t.args[0], map[int]bool{}, e2)
	}
	if seen[t.id] {
		return false
	}
	seen[t.id] = true
	for _, a := range t.args {
		if hasFreeBound(a, seen, env) {
			return true
		}
	}
	return false
}

// Subst replaces bound variables / constants by terms.
func Subst(t *Term, m map[*Term]*Term, memo map[int]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	var r *Term
	if t.op == "forall" {
		body := Subst(t.args[0], m, memo)
		var pats [][]*Term
		for _, p := range t.pats {
			var np []*Term
			for _, x := range p {
				np = append(np, Subst(x, m, memo))
			}
			pats = append(pats, np)
		}
		r = Forall(t.bvs, pats, body)
	} else {
		na := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			na[i] = Subst(a, m, memo)
			if na[i] != a {
				ch = true
			}
		}
		if !ch {
			r = t
		} else {
			r = rebuild(t, na)
		}
	}
	memo[t.id] = r
	return r
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "=>":
		return Imp(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "+":
		return Add(a...)
	case "*":
		return Mul(a[0], a[1])
	case "div":
		return Div(a[0], a[1])
	case "mod":
		return Mod(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "<":
		return Lt(a[0], a[1])
	case "=":
		return Eq(a[0], a[1])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "rid":
		return Rid(a[0])
	case "ebase":
		return ebase(a[0])
	case "eidx":
		return eidx(a[0])
	}
	return mk(t.op, t.sort, a...)
}

func (t *Term) String() string {
	var sb strings.Builder
	printTerm(&sb, t, nil, 0)
	return sb.String()
}

func printTerm(sb *strings.Builder, t *Term, name func(*Term) string, depth int) {
	if name != nil {
		if n := name(t); n != "" {
			sb.WriteString(n)
			return
		}
	}
	switch t.op {
	case "int":
		if t.ival.Sign() < 0 {
			sb.WriteString("(- " + new(big.Int).Neg(t.ival).String() + ")")
		} else {
			sb.WriteString(t.ival.String())
		}
		return
	case "forall":
		sb.WriteString("(forall (")
		for _, v := range t.bvs {
			vn := q(v.op)
			if name != nil {
				if n := name(v); n != "" {
					vn = n
				}
			}
			sb.WriteString("(" + vn + " " + v.sort + ")")
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		printTerm(sb, t.args[0], name, depth+1)
		if len(t.pats) > 0 {
			for _, p := range t.pats {
				sb.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						sb.WriteByte(' ')
					}
					printTerm(sb, x, name, depth+1)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return
	case "constarr":
		sb.WriteString("((as const " + t.sort + ") ")
		printTerm(sb, t.args[0], name, depth+1)
		sb.WriteString(")")
		return
	}
	if len(t.args) == 0 {
		sb.WriteString(q(t.op))
		return
	}
	sb.WriteString("(" + q(t.op))
	for _, a := range t.args {
		sb.WriteByte(' ')
		printTerm(sb, a, name, depth+1)
	}
	sb.WriteString(")")
}

func q(s string) string {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("_.!@$?+-*=<>", c) >= 0 {
			continue
		}
		return "|" + s + "|"
	}
	return s
}
