package main

import (
	"fmt"
	"math/big"
	"os"
	"strings"
)

// ---------------------------------------------------------------- AST

type Expr struct {
	kind string // int str ident call field index slice unary bin forall exists cond old deref addr
	s    string
	n    *big.Int
	a    []*Expr
	vars []Param
	pats [][]*Expr
	pos  string
}

type Param struct {
	name string
	typ  string
}

type Clause struct {
	kind  string // requires ensures inv decreases modifies ghost stable ...
	label string
	e     *Expr
	lhs   *Expr
	cond  *Expr
	text  string
	pos   string
	arg   string
}

type FuncSpec struct {
	pkg     string
	name    string // ssa relative name, e.g. (*recvBuffer).push
	params  []string
	results []string
	light []string // properties that only need the locking obligations of the function
	props   []string
	clauses []*Clause
	flags   map[string]string
	pos     string
	extern  bool // assumed, not verified
	ftypes  []string
}

func (f *FuncSpec) get(kind string) []*Clause {
	var out []*Clause
	for _, c := range f.clauses {
		if c.kind == kind {
			out = append(out, c)
		}
	}
	return out
}

type PredDef struct {
	name   string
	params []Param
	ret    string
	body   *Expr
	rec    bool
	depth  int
	pkg    string
	pos    string
}

type GhostDef struct {
	name string
	key  string
	val  string
	pkg  string
}

type DTDef struct {
	name   string
	ctor   string
	fields []Param
}

type LemmaDef struct {
	name   string
	params []Param
	pats   [][]*Expr
	body   *Expr
	induct string
	pkg    string
	pos    string
	trust  bool
	props  []string
	uses   []string
}

type Monitor struct {
	name    string
	pkg     string
	typ     string // struct type name owning the mutex
	mutex   string // field path of mutex
	self    string // variable name for the struct
	fields  []string
	havoc   []*Clause
	invs    []*Clause
	trans   []*Clause // two-state
	conds   []MonCond
	atrel   []*Clause // ghost updates at release
	pos     string
	guards  bool
	stableF map[string][]string // role -> fields
}

type MonCond struct {
	cond  string // field name
	block *Expr
	text  string
	owes  bool
}

type Spec struct {
	funcs    []*FuncSpec
	preds    map[string]*PredDef
	predSeq  []*PredDef
	ghosts   map[string]*GhostDef
	dts      []*DTDef
	lemmas   []*LemmaDef
	monitors []*Monitor
	checks   []*SyntaxCheck
	typeinvs []*TypeInv
}

type SyntaxCheck struct {
	kind  string
	args  []string
	props []string
	pos   string
	pkg   string
}

// ---------------------------------------------------------------- lexer

type tok struct {
	k    string // id int str op eof
	s    string
	line int
	off  int
}

func lex(file, src string) []tok {
	var ts []tok
	line := 1
	i := 0
	ops := []string{"<==>", "==>", "&&", "||", "==", "!=", "<=", ">=", "++", "::", ":=", "..", "<", ">", "+", "-", "*", "/", "%", "!", "?", ":", ".", ",", "(", ")", "[", "]", "{", "}", "&", "=", "|", "@", ";", "#"}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case isIdStart(c):
			j := i
			for j < len(src) && (isIdStart(src[j]) || src[j] >= '0' && src[j] <= '9' || src[j] == '$') {
				j++
			}
			ts = append(ts, tok{"id", src[i:j], line, i})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] == 'x' || src[j] >= 'a' && src[j] <= 'f' || src[j] >= 'A' && src[j] <= 'F') {
				j++
			}
			ts = append(ts, tok{"int", src[i:j], line, i})
			i = j
		case c == '"':
			j := i + 1
			var sb strings.Builder
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
					sb.WriteByte(unesc(src[j]))
				} else {
					sb.WriteByte(src[j])
				}
				j++
			}
			ts = append(ts, tok{"str", sb.String(), line, i})
			i = j + 1
		case c == '\'':
			j := i + 1
			var v byte
			if src[j] == '\\' {
				j++
				v = unesc(src[j])
			} else {
				v = src[j]
			}
			ts = append(ts, tok{"int", fmt.Sprint(v), line, i})
			i = j + 2
		default:
			found := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					ts = append(ts, tok{"op", o, line, i})
					i += len(o)
					found = true
					break
				}
			}
			if !found {
				fatal("%s:%d: bad character %q", file, line, c)
			}
		}
	}
	ts = append(ts, tok{"eof", "", line, len(src)})
	return ts
}
func unesc(c byte) byte {
	switch c {
	case 'n':
		return '\n'
	case 'r':
		return '\r'
	case 't':
		return '\t'
	case '0':
		return 0
	}
	return c
}
func isIdStart(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$'
}

var keywords = map[string]bool{"package": true, "func": true, "extern": true, "pred": true, "rec": true, "ghost": true, "datatype": true,
	"lemma": true, "axiom": true, "monitor": true, "light": true, "requires": true, "ensures": true, "modifies": true, "inv": true, "decreases": true,
	"prop": true, "set": true, "stable": true, "flag": true, "check": true, "protects": true, "invariant": true, "transition": true, "cond": true, "atrelease": true,
	"role": true, "havoc": true, "nomodel": true, "assert": true, "poolinv": true, "spawn": true, "by": true, "iface": true, "atexit": true, "atentry": true, "atacquire": true, "let": true, "uses": true, "assume": true, "split": true, "waits": true, "holds": true, "signals": true, "atcall": true, "typeinv": true}

type sparser struct {
	file string
	src  string
	ts   []tok
	p    int
}

func (p *sparser) cur() tok { return p.ts[p.p] }
func (p *sparser) at(s string) bool {
	return p.ts[p.p].s == s && p.ts[p.p].k != "str" && p.ts[p.p].k != "eof"
}
func (p *sparser) next() tok { t := p.ts[p.p]; p.p++; return t }
func (p *sparser) eat(s string) bool {
	if p.at(s) {
		p.p++
		return true
	}
	return false
}
func (p *sparser) expect(s string) {
	if !p.eat(s) {
		p.fail("expected %q, got %q", s, p.cur().s)
	}
}
func (p *sparser) fail(f string, a ...interface{}) {
	fatal("%s:%d: %s", p.file, p.cur().line, fmt.Sprintf(f, a...))
}
func (p *sparser) ident() string {
	t := p.next()
	if t.k != "id" {
		p.p--
		p.fail("identifier expected, got %q", t.s)
	}
	return t.s
}
func (p *sparser) pos() string { return fmt.Sprintf("%s:%d", p.file, p.cur().line) }

// types: ident, *ident, [int]T, []T, qualified a.b
func (p *sparser) typ() string {
	if p.eat("*") {
		return "*" + p.typ()
	}
	if p.eat("[") {
		if p.eat("]") {
			return "[]" + p.typ()
		}
		k := p.typ()
		p.expect("]")
		return "[" + k + "]" + p.typ()
	}
	s := p.ident()
	for p.at(".") && p.ts[p.p+1].k == "id" {
		p.p++
		s += "." + p.ident()
	}
	return s
}

func (p *sparser) params() []Param {
	var out []Param
	p.expect("(")
	for !p.at(")") {
		n := p.ident()
		t := ""
		if !p.at(",") && !p.at(")") {
			t = p.typ()
		}
		out = append(out, Param{n, t})
		if !p.eat(",") {
			break
		}
	}
	p.expect(")")
	// a b int  style: propagate type backwards
	for i := len(out) - 2; i >= 0; i-- {
		if out[i].typ == "" {
			out[i].typ = out[i+1].typ
		}
	}
	return out
}

// ---------------------------------------------------------------- expressions

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 4, "&&": 5, "==": 6, "!=": 6, "<": 6, "<=": 6, ">": 6, ">=": 6, "++": 7, "+": 8, "-": 8, "*": 9, "/": 9, "%": 9}

func (p *sparser) expr() *Expr { return p.binary(1) }

func (p *sparser) binary(min int) *Expr {
	l := p.unary()
	for {
		t := p.cur()
		if t.k == "op" && t.s == "?" && min <= 3 {
			p.next()
			a := p.binary(3)
			p.expect(":")
			b := p.binary(3)
			l = &Expr{kind: "cond", a: []*Expr{l, a, b}}
			continue
		}
		pr, ok := binPrec[t.s]
		if t.k != "op" || !ok || pr < min {
			return l
		}
		p.next()
		var r *Expr
		if t.s == "==>" {
			r = p.binary(pr) // right assoc
		} else {
			r = p.binary(pr + 1)
		}
		// chained comparisons a <= b < c
		if pr == 6 {
			e := &Expr{kind: "bin", s: t.s, a: []*Expr{l, r}, pos: p.pos()}
			for p.cur().k == "op" && binPrec[p.cur().s] == 6 {
				t2 := p.next()
				r2 := p.binary(7)
				e = &Expr{kind: "bin", s: "&&", a: []*Expr{e, {kind: "bin", s: t2.s, a: []*Expr{r, r2}, pos: p.pos()}}}
				r = r2
			}
			l = e
			continue
		}
		l = &Expr{kind: "bin", s: t.s, a: []*Expr{l, r}, pos: p.pos()}
	}
}

func (p *sparser) unary() *Expr {
	t := p.cur()
	if t.k == "op" {
		switch t.s {
		case "!", "-", "*", "&":
			p.next()
			return &Expr{kind: "unary", s: t.s, a: []*Expr{p.unary()}, pos: p.pos()}
		}
	}
	if t.k == "id" && (t.s == "forall" || t.s == "exists") {
		p.next()
		e := &Expr{kind: t.s, pos: p.pos()}
		for {
			n := p.ident()
			ty := ""
			if !p.at(",") && !p.at("::") && !p.at("{") {
				ty = p.typ()
			}
			e.vars = append(e.vars, Param{n, ty})
			if !p.eat(",") {
				break
			}
		}
		for i := len(e.vars) - 2; i >= 0; i-- {
			if e.vars[i].typ == "" {
				e.vars[i].typ = e.vars[i+1].typ
			}
		}
		for p.eat("{") {
			var pat []*Expr
			for !p.at("}") {
				pat = append(pat, p.expr())
				p.eat(",")
			}
			p.expect("}")
			e.pats = append(e.pats, pat)
		}
		p.expect("::")
		e.a = []*Expr{p.binary(1)}
		return e
	}
	return p.postfix(p.primary())
}

func (p *sparser) primary() *Expr {
	pos := p.pos()
	t := p.next()
	switch t.k {
	case "int":
		n, ok := new(big.Int).SetString(t.s, 0)
		if !ok {
			p.fail("bad number %s", t.s)
		}
		return &Expr{kind: "int", n: n, pos: pos}
	case "str":
		return &Expr{kind: "str", s: t.s, pos: pos}
	case "id":
		if t.s == "old" && p.at("(") {
			p.next()
			e := p.expr()
			p.expect(")")
			return &Expr{kind: "old", a: []*Expr{e}, pos: pos}
		}
		if keywords[t.s] {
			p.p--
			p.fail("unexpected keyword %q in expression", t.s)
		}
		return &Expr{kind: "ident", s: t.s, pos: pos}
	case "op":
		if t.s == "(" {
			e := p.expr()
			p.expect(")")
			return e
		}
	}
	p.p--
	p.fail("unexpected %q in expression", t.s)
	return nil
}

func (p *sparser) postfix(e *Expr) *Expr {
	for {
		pos := p.pos()
		switch {
		case p.at("."):
			p.next()
			e = &Expr{kind: "field", s: p.ident(), a: []*Expr{e}, pos: pos}
		case p.at("("):
			p.next()
			var args []*Expr
			for !p.at(")") {
				args = append(args, p.expr())
				if !p.eat(",") {
					break
				}
			}
			p.expect(")")
			if e.kind == "ident" {
				e = &Expr{kind: "call", s: e.s, a: args, pos: pos}
			} else {
				p.fail("call of non-identifier")
			}
		case p.at("["):
			p.next()
			if p.eat("..") {
				b := p.expr()
				p.expect("]")
				e = &Expr{kind: "slice", a: []*Expr{e, nil, b}, pos: pos}
				continue
			}
			i := p.expr()
			if p.eat("..") {
				var b *Expr
				if !p.at("]") {
					b = p.expr()
				}
				p.expect("]")
				e = &Expr{kind: "slice", a: []*Expr{e, i, b}, pos: pos}
				continue
			}
			if p.eat(":=") {
				v := p.expr()
				p.expect("]")
				e = &Expr{kind: "update", a: []*Expr{e, i, v}, pos: pos}
				continue
			}
			p.expect("]")
			e = &Expr{kind: "index", a: []*Expr{e, i}, pos: pos}
		default:
			return e
		}
	}
}

// ---------------------------------------------------------------- declarations

func parseSpecFile(file string, sp *Spec) {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	short := file
	if i := strings.LastIndexByte(file, '/'); i >= 0 {
		short = file[i+1:]
	}
	p := &sparser{file: short, src: string(b), ts: lex(short, string(b))}
	pkg := "memcache"
	for p.cur().k != "eof" {
		pos := p.pos()
		switch {
		case p.eat("package"):
			pkg = p.ident()
		case p.eat("ghost"):
			// ghost name(key) val
			n := p.ident()
			p.expect("(")
			k := p.typ()
			p.expect(")")
			v := p.typ()
			sp.ghosts[n] = &GhostDef{n, k, v, pkg}
		case p.eat("datatype"):
			n := p.ident()
			p.expect("=")
			c := p.ident()
			fs := p.params()
			sp.dts = append(sp.dts, &DTDef{n, c, fs})
		case p.at("pred") || p.at("rec"):
			rec := p.next().s == "rec"
			d := &PredDef{rec: rec, pkg: pkg, pos: pos, depth: 1}
			d.name = p.ident()
			d.params = p.params()
			d.ret = "bool"
			if !p.at("=") && !p.at("#") {
				d.ret = p.typ()
			}
			if p.eat("#") {
				d.depth = int(mustInt(p))
			}
			if p.eat("=") {
				d.body = p.expr()
			}
			if sp.preds[d.name] != nil {
				p.fail("duplicate definition of %s", d.name)
			}
			sp.preds[d.name] = d
			sp.predSeq = append(sp.predSeq, d)
		case p.at("lemma") || p.at("axiom"):
			l := &LemmaDef{trust: p.next().s == "axiom", pkg: pkg, pos: pos}
			l.name = p.ident()
			l.params = p.params()
			for p.eat("{") {
				var pat []*Expr
				for !p.at("}") {
					pat = append(pat, p.expr())
					p.eat(",")
				}
				p.expect("}")
				l.pats = append(l.pats, pat)
			}
			p.expect("=")
			l.body = p.expr()
			if p.eat("by") {
				l.induct = p.ident()
			}
			for p.eat("uses") {
				l.uses = append(l.uses, p.ident())
				for p.eat(",") {
					l.uses = append(l.uses, p.ident())
				}
			}
			sp.lemmas = append(sp.lemmas, l)
		case p.eat("monitor"):
			p.monitor(sp, pkg, pos)
		case p.eat("check"):
			c := &SyntaxCheck{pos: pos, pkg: pkg}
			c.kind = p.ident()
			for p.cur().k == "str" || (p.cur().k == "id" && !keywords[p.cur().s]) {
				c.args = append(c.args, p.next().s)
			}
			for p.eat("prop") {
				for p.cur().k == "id" && !keywords[p.cur().s] {
					c.props = append(c.props, p.next().s)
				}
			}
			sp.checks = append(sp.checks, c)
		case p.eat("typeinv"):
			ti := &TypeInv{pos: pos, pkg: pkg}
			ti.typ = p.ident()
			p.expect("(")
			ti.v = p.ident()
			p.expect(")")
			ti.label = p.label()
			p.expect(":")
			st := p.p
			ti.e = p.expr()
			ti.text = p.textFrom(st)
			sp.typeinvs = append(sp.typeinvs, ti)
		case p.at("func") || p.at("extern"):
			p.funcSpec(sp, pkg, pos)
		default:
			p.fail("declaration expected, got %q", p.cur().s)
		}
	}
}

func mustInt(p *sparser) int64 {
	t := p.next()
	n, ok := new(big.Int).SetString(t.s, 0)
	if !ok {
		p.fail("number expected")
	}
	return n.Int64()
}

func (p *sparser) label() string {
	if p.eat("@") {
		s := p.ident()
		for p.at(".") {
			p.next()
			s += "." + p.ident()
		}
		return s
	}
	return ""
}

func (p *sparser) textFrom(start int) string {
	a := p.ts[start].off
	b := p.ts[p.p].off
	s := strings.TrimSpace(p.src[a:b])
	s = strings.Join(strings.Fields(s), " ")
	return s
}

// function names: (*T).m, T.m, f ; given as string or tokens
func (p *sparser) funcName() string {
	if p.cur().k == "str" {
		return p.next().s
	}
	if p.eat("(") {
		s := "("
		if p.eat("*") {
			s += "*"
		}
		s += p.ident()
		for p.eat(".") {
			s += "." + p.ident()
		}
		p.expect(")")
		s += ")"
		p.expect(".")
		return s + "." + p.ident()
	}
	s := p.ident()
	for p.eat(".") {
		s += "." + p.ident()
	}
	return s
}

func (p *sparser) funcSpec(sp *Spec, pkg, pos string) {
	f := &FuncSpec{pkg: pkg, flags: map[string]string{}, pos: pos}
	if p.eat("extern") {
		f.extern = true
	} else {
		p.expect("func")
	}
	f.name = p.funcName()
	if p.at("(") {
		for _, x := range p.params() {
			f.params = append(f.params, x.name)
			f.ftypes = append(f.ftypes, x.typ)
		}
	}
	if p.at("(") {
		for _, x := range p.params() {
			f.results = append(f.results, x.name)
		}
	}
	for {
		t := p.cur()
		cpos := p.pos()
		if t.k != "id" {
			break
		}
		switch t.s {
		case "prop":
			p.next()
			for p.cur().k == "id" && !keywords[p.cur().s] {
				f.props = append(f.props, p.next().s)
			}
			continue
		case "light":
			p.next()
			for p.cur().k == "id" && !keywords[p.cur().s] {
				f.light = append(f.light, p.next().s)
			}
			continue
		case "requires", "ensures", "inv", "decreases", "assert", "assume", "split", "waits":
			p.next()
			c := &Clause{kind: t.s, pos: cpos}
			c.label = p.label()
			st := p.p
			c.e = p.expr()
			c.text = p.textFrom(st)
			f.clauses = append(f.clauses, c)
			continue
		case "let":
			p.next()
			c := &Clause{kind: "let", pos: cpos}
			c.arg = p.ident()
			p.expect("=")
			c.e = p.expr()
			f.clauses = append(f.clauses, c)
			continue
		case "atexit", "set", "atrelease", "atentry":
			c := &Clause{kind: "atexit", pos: cpos}
			if k := p.next().s; k == "atrelease" || k == "atentry" {
				c.kind = k
			}
			st := p.p
			c.lhs = p.postfix(p.primary())
			p.expect(":=")
			c.e = p.expr()
			if p.cur().s == "forall" {
				p.next()
				c.arg = p.ident()
			}
			if p.cur().s == "if" {
				p.next()
				c.cond = p.expr()
			}
			c.text = p.textFrom(st)
			f.clauses = append(f.clauses, c)
			continue
		case "modifies":
			p.next()
			for {
				c := &Clause{kind: "modifies", pos: cpos}
				st := p.p
				if p.cur().s == "all" || p.cur().s == "nothing" || p.cur().s == "any" {
					c.arg = p.next().s
					if c.arg == "all" {
						c.label = p.typ()
						if p.cur().s == "where" {
							p.next()
							c.e = p.expr()
						}
					}
				} else {
					c.e = p.expr()
					if p.at(":=") { // assigned: the value on exit is known (checked like an ensures)
						p.next()
						c.cond = p.expr()
						if c.e.kind != "unary" || c.e.s != "*" {
							serr(c.e, "modifies ... := is for *p only")
						}
						old := func(e *Expr) *Expr { return &Expr{kind: "old", a: []*Expr{e}, pos: e.pos} }
						c2 := &Clause{kind: "ensures", pos: cpos, text: p.textFrom(st)}
						c2.e = &Expr{kind: "bin", s: "==", a: []*Expr{{kind: "unary", s: "*", a: []*Expr{old(c.e.a[0])}, pos: c.e.pos}, old(c.cond)}, pos: c.e.pos}
						f.clauses = append(f.clauses, c2)
					}
				}
				c.text = p.textFrom(st)
				f.clauses = append(f.clauses, c)
				if !p.eat(",") {
					break
				}
			}
			continue
		case "stable":
			p.next()
			c := &Clause{kind: "stable", pos: cpos}
			st := p.p
			c.e = p.expr()
			c.text = p.textFrom(st)
			f.clauses = append(f.clauses, c)
			continue
		case "signals":
			p.next()
			c := &Clause{kind: "signals", pos: cpos}
			st := p.p
			c.e = p.expr()
			if p.cur().s == "if" {
				p.next()
				c.cond = p.expr()
			}
			c.text = p.textFrom(st)
			f.clauses = append(f.clauses, c)
			continue
		case "atcall":
			p.next()
			c := &Clause{kind: "atcall", pos: cpos}
			c.arg = p.next().s
			c.label = p.label()
			st := p.p
			c.e = p.expr()
			c.text = p.textFrom(st)
			f.clauses = append(f.clauses, c)
			continue
		case "holds":
			p.next()
			c := &Clause{kind: "holds", pos: cpos}
			c.arg = p.ident()
			st := p.p
			c.e = p.expr()
			c.text = p.textFrom(st)
			f.clauses = append(f.clauses, c)
			continue
		case "flag":
			p.next()
			n := p.ident()
			v := "1"
			if p.eat("=") {
				v = p.next().s
			}
			if n == "role" && f.flags[n] != "" {
				v = f.flags[n] + "," + v
			}
			f.flags[n] = v
			continue
		}
		break
	}
	sp.funcs = append(sp.funcs, f)
}

func (p *sparser) monitor(sp *Spec, pkg, pos string) {
	m := &Monitor{pkg: pkg, pos: pos, stableF: map[string][]string{}}
	m.name = p.ident()
	p.expect("(")
	m.self = p.ident()
	p.expect("*")
	m.typ = p.ident()
	p.expect(")")
	p.expect(".")
	m.mutex = p.ident()
	for {
		t := p.cur()
		cpos := p.pos()
		if t.k != "id" {
			break
		}
		switch t.s {
		case "protects":
			p.next()
			for p.cur().k == "id" && !keywords[p.cur().s] {
				m.fields = append(m.fields, p.ident())
				p.eat(",")
			}
			continue
		case "role":
			p.next()
			r := p.ident()
			p.expect(":")
			for p.cur().k == "id" && !keywords[p.cur().s] {
				m.stableF[r] = append(m.stableF[r], p.ident())
				p.eat(",")
			}
			continue
		case "havoc":
			p.next()
			c := &Clause{kind: "havoc", pos: cpos}
			if p.cur().s == "all" {
				p.next()
				c.arg = "all"
				c.label = p.typ()
				if p.eat("where") { // of address a
					c.e = p.expr()
				}
			} else {
				c.e = p.expr()
			}
			m.havoc = append(m.havoc, c)
			continue
		case "invariant", "transition":
			p.next()
			c := &Clause{kind: t.s, pos: cpos}
			c.label = p.label()
			st := p.p
			c.e = p.expr()
			c.text = p.textFrom(st)
			if t.s == "invariant" {
				m.invs = append(m.invs, c)
			} else {
				m.trans = append(m.trans, c)
			}
			continue
		case "cond":
			p.next()
			n := p.ident()
			owes := false
			if p.cur().s == "owes" {
				p.next()
				owes = true
			} else {
				p.expect(":")
			}
			st := p.p
			e := p.expr()
			m.conds = append(m.conds, MonCond{n, e, p.textFrom(st), owes})
			continue
		case "atrelease":
			p.next()
			c := &Clause{kind: "atrelease", pos: cpos}
			st := p.p
			c.lhs = p.postfix(p.primary())
			p.expect(":=")
			c.e = p.expr()
			if p.cur().s == "forall" {
				p.next()
				c.arg = p.ident()
			}
			if p.cur().s == "if" {
				p.next()
				c.cond = p.expr()
			}
			c.text = p.textFrom(st)
			m.atrel = append(m.atrel, c)
			continue
		}
		break
	}
	sp.monitors = append(sp.monitors, m)
}
