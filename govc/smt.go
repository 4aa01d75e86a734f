package main

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------- symbols

type funDecl struct {
	args []string
	ret  string
}

var (
	symMu     sync.Mutex
	axioms    = map[string][]*Term{} // symbol -> axioms included when the symbol occurs
	datatypes []string               // extra datatype declarations (SMT-LIB text)
	dtSyms    = map[string]bool{}    // constructors, selectors, testers of datatypes
	sortDecls = []string{"Str", "Fn"}
)

var builtinOps = map[string]bool{
	"not": true, "and": true, "or": true, "=>": true, "ite": true, "+": true, "*": true, "div": true, "mod": true,
	"<=": true, "<": true, "=": true, "select": true, "store": true, "true": true, "false": true, "int": true,
	"constarr": true, "forall": true, "-": true,
	"null": true, "root": true, "elem": true, "fld": true, "rn": true, "ebase": true, "eidx": true, "fid": true, "fbase": true,
	"is-null": true, "is-root": true, "is-elem": true, "is-fld": true,
	"iface_nil": true, "iface_a": true, "iface_s": true, "iface_i": true, "iface_b": true, "iface_f": true,
	"is-iface_nil": true, "is-iface_a": true, "is-iface_s": true, "is-iface_i": true, "is-iface_b": true, "is-iface_f": true,
	"itag_a": true, "itag_s": true, "itag_i": true, "itag_b": true, "itag_f": true,
	"ipay_a": true, "ipay_s": true, "ipay_i": true, "ipay_f": true, "ipb_arr": true, "ipb_off": true, "ipb_len": true, "ipb_cap": true,
}

func addAxiom(sym string, t *Term) {
	symMu.Lock()
	axioms[sym] = append(axioms[sym], t)
	symMu.Unlock()
}

const preambleDT = `(declare-sort Str 0)
(declare-sort Fn 0)
(declare-datatypes ((Addr 0)) (((null) (root (rn Int)) (elem (ebase Addr) (eidx Int)) (fld (fid Int) (fbase Addr)))))
(declare-datatypes ((Iface 0)) (((iface_nil) (iface_a (itag_a Int) (ipay_a Addr)) (iface_s (itag_s Int) (ipay_s Str)) (iface_i (itag_i Int) (ipay_i Int)) (iface_f (itag_f Int) (ipay_f Fn)) (iface_b (itag_b Int) (ipb_arr Addr) (ipb_off Int) (ipb_len Int) (ipb_cap Int)))))
`

// buildQuery renders assertions (all conjoined) as an SMT-LIB script body without check-sat.
func buildQuery(as []*Term) string {
	// collect symbols transitively through axioms
	seen := map[int]bool{}
	syms := map[string]*Term{}
	var order []*Term
	statics := map[string]bool{}
	var work []*Term
	work = append(work, as...)
	var asserts []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.args {
			visit(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				visit(x)
			}
		}
		if t.op == "root" && isInt(t.args[0]) && t.args[0].ival.IsInt64() && t.args[0].ival.Int64() >= staticBase {
			k := staticKey(t.args[0].ival.Int64())
			if !statics[k] {
				statics[k] = true
				symMu.Lock()
				work = append(work, axioms[k]...)
				symMu.Unlock()
			}
		}
		if builtinOps[t.op] || isBV(t) || dtSyms[t.op] {
			return
		}
		if _, ok := syms[t.op]; !ok {
			syms[t.op] = t
			order = append(order, t)
			symMu.Lock()
			ax := axioms[t.op]
			symMu.Unlock()
			work = append(work, ax...)
		}
	}
	done := map[int]bool{}
	for len(work) > 0 {
		t := work[0]
		work = work[1:]
		if done[t.id] {
			continue
		}
		done[t.id] = true
		asserts = append(asserts, t)
		visit(t)
	}
	var sb strings.Builder
	sb.WriteString(preambleDT)
	for _, d := range datatypes {
		sb.WriteString(d)
		sb.WriteByte('\n')
	}
	sort.Slice(order, func(i, j int) bool { return order[i].op < order[j].op })
	for _, t := range order {
		sb.WriteString("(declare-fun " + q(t.op) + " (")
		for i, a := range t.args {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(a.sort)
		}
		sb.WriteString(") " + t.sort + ")\n")
	}
	// sharing
	refs := map[int]int{}
	var cnt func(t *Term)
	cnt = func(t *Term) {
		refs[t.id]++
		if refs[t.id] > 1 {
			return
		}
		for _, a := range t.args {
			cnt(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				cnt(x)
			}
		}
	}
	for _, a := range asserts {
		cnt(a)
	}
	names := map[int]string{}
	name := func(t *Term) string { return names[t.id] }
	var emit func(t *Term)
	emitted := map[int]bool{}
	nb := 0
	emit = func(t *Term) {
		if emitted[t.id] {
			return
		}
		emitted[t.id] = true
		for _, v := range t.bvs {
			nb++
			names[v.id] = fmt.Sprintf("b%d", nb)
		}
		for _, a := range t.args {
			emit(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				emit(x)
			}
		}
		if !t.bound && len(t.args) > 0 && refs[t.id] > 1 && t.size > 3 && !(t.op == "=" || t.op == "<=" || t.op == "<") {
			n := fmt.Sprintf("t_%d", len(names))
			sb.WriteString("(define-fun " + n + " () " + t.sort + " ")
			printTerm(&sb, t, name, 0)
			sb.WriteString(")\n")
			names[t.id] = n
		}
	}
	for _, a := range asserts {
		emit(a)
	}
	for _, a := range asserts {
		sb.WriteString("(assert ")
		printTerm(&sb, a, name, 0)
		sb.WriteString(")\n")
	}
	return sb.String()
}

// ---------------------------------------------------------------- solver pool

type solverProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

var solverPool = make(chan *solverProc, 64)

// solver slots: shared by all workers of a run through a pipe of tokens
var solverSem chan struct{}
var slotR, slotW *os.File

func acquireSlot() {
	if slotR != nil {
		b := []byte{0}
		if _, err := slotR.Read(b); err == nil {
			return
		}
	}
	solverSem <- struct{}{}
}

func releaseSlot() {
	if slotR != nil {
		if _, err := slotW.Write([]byte{1}); err == nil {
			return
		}
	}
	<-solverSem
}

var (
	statQueries  int64
	statTimeNS   int64
	statByEngine sync.Map // name -> *int64
)

func countEngine(n string) {
	v, _ := statByEngine.LoadOrStore(n, new(int64))
	atomic.AddInt64(v.(*int64), 1)
}

func startZ3() (*solverProc, error) {
	cmd := exec.Command("z3", "-in", "-smt2", "-memory:3000")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &solverProc{cmd: cmd, in: in, out: bufio.NewReader(out)}, nil
}

func (p *solverProc) kill() {
	_ = p.in.Close()
	_ = p.cmd.Process.Kill()
	_ = p.cmd.Wait()
}

const z3Options = `(set-option :auto_config false)
(set-option :smt.mbqi false)
(set-option :smt.random_seed 7)
`

var qcache sync.Map // sha -> string result

// ask runs one z3 query (E-matching only). Result: "unsat", "sat", "unknown".
func ask(body string, ms int) string {
	h := sha256.Sum256([]byte(body))
	key := string(h[:])
	if v, ok := qcache.Load(key); ok {
		return v.(string)
	}
	acquireSlot()
	defer releaseSlot()
	t0 := time.Now()
	var p *solverProc
	select {
	case p = <-solverPool:
	default:
		var err error
		p, err = startZ3()
		if err != nil {
			fatal("cannot start z3: %v", err)
		}
	}
	script := "(reset)\n" + z3Options + fmt.Sprintf("(set-option :timeout %d)\n", ms) + body + "(check-sat)\n(echo \"<done>\")\n"
	resCh := make(chan string, 1)
	go func() {
		_, err := io.WriteString(p.in, script)
		if err != nil {
			resCh <- "error " + err.Error()
			return
		}
		res := ""
		for {
			l, err := p.out.ReadString('\n')
			if err != nil {
				resCh <- "error " + err.Error()
				return
			}
			l = strings.TrimSpace(l)
			if l == "<done>" || l == "\"<done>\"" {
				resCh <- res
				return
			}
			if strings.HasPrefix(l, "(error") {
				if !strings.Contains(l, "canceled") {
					res = l
				}
				continue
			}
			if res == "" {
				res = l
			}
		}
	}()
	var res string
	select {
	case res = <-resCh:
		solverPool <- p
	case <-time.After(time.Duration(ms)*time.Millisecond*3/2 + 3*time.Second):
		p.kill()
		res = "unknown"
	}
	atomic.AddInt64(&statQueries, 1)
	atomic.AddInt64(&statTimeNS, int64(time.Since(t0)))
	if strings.HasPrefix(res, "(error") {
		dumpQuery("error", body)
		fatal("z3: %s", res)
	}
	if strings.HasPrefix(res, "error") {
		res = "unknown"
	}
	if res == "timeout" || res == "" {
		res = "unknown"
	}
	qcache.Store(key, res)
	return res
}

// oneShot runs an external solver on a file-less query.
func oneShot(name string, args []string, script string, timeout time.Duration, stop <-chan struct{}) string {
	acquireSlot()
	defer releaseSlot()
	select {
	case <-stop:
		return "unknown"
	default:
	}
	t0 := time.Now()
	cmd := exec.Command(name, args...)
	cmd.Stdin = strings.NewReader(script)
	var out strings.Builder
	cmd.Stdout = &out
	if err := cmd.Start(); err != nil {
		return "unknown"
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-stop:
		_ = cmd.Process.Kill()
		<-done
	case <-time.After(timeout):
		_ = cmd.Process.Kill()
		<-done
	}
	atomic.AddInt64(&statQueries, 1)
	atomic.AddInt64(&statTimeNS, int64(time.Since(t0)))
	for _, l := range strings.Split(out.String(), "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" {
			return l
		}
	}
	return "unknown"
}

// prepare renders the query whose unsatisfiability proves the goal ("" when trivially proved).
func prepare(assume []*Term, goal *Term) string {
	if goal == True {
		return ""
	}
	for _, a := range assume {
		if a == goal || a == False {
			return ""
		}
	}
	n := 0
	as := make([]*Term, 0, len(assume)+1)
	for _, a := range assume {
		as = append(as, skolem(a, true, &n))
	}
	as = append(as, skolem(goal, false, &n))
	return buildQuery(saturate(as))
}

// skolem gives t (pos) or its negation (!pos) with outermost existentials replaced by constants.
func skolem(t *Term, pos bool, n *int) *Term {
	switch t.op {
	case "forall":
		if pos {
			return t
		}
		m := map[*Term]*Term{}
		for _, b := range t.bvs {
			*n++
			m[b] = Const(fmt.Sprintf("sk$%d_%s", *n, strings.SplitN(b.op, "?", 2)[0]), b.sort)
		}
		r := skolem(Subst(t.args[0], m, map[int]*Term{}), false, n)
		// keep the trigger terms of the goal in sight
		for _, p := range t.pats {
			for _, x := range p {
				g := Subst(x, m, map[int]*Term{})
				if !g.bound && len(g.args) > 0 {
					r = And(r, mk("uf$touch_"+sanitize(g.sort), SBool, g))
				}
			}
		}
		return r
	case "not":
		return skolem(t.args[0], !pos, n)
	case "and", "or":
		if (t.op == "and") == pos {
			var out []*Term
			for _, a := range t.args {
				out = append(out, skolem(a, pos, n))
			}
			return And(out...)
		}
		var out []*Term
		for _, a := range t.args {
			out = append(out, skolem(a, pos, n))
		}
		return Or(out...)
	case "=>":
		if pos {
			return Or(skolem(t.args[0], false, n), skolem(t.args[1], true, n))
		}
		return And(skolem(t.args[0], true, n), skolem(t.args[1], false, n))
	}
	if pos {
		return t
	}
	return Not(t)
}

// prove tries to show that the assumptions imply the goal. Returns the back end used, or "" when undecided.
func prove(assume []*Term, goal *Term, deep bool) (string, bool) {
	return solve(prepare(assume, goal), deep)
}

// askNew gives the newer z3 a try.
func askNew(body string, seconds int) string {
	key := "new" + body
	if v, ok := qcache.Load(key); ok {
		return v.(string)
	}
	r := oneShot("z3-new", []string{"-in", "-smt2", fmt.Sprintf("-T:%d", seconds)}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"+body+"(check-sat)\n", time.Duration(seconds+2)*time.Second, nil)
	qcache.Store(key, r)
	return r
}

// failing counts the obligations of the current function that were not discharged.
var failing atomic.Int64

func solve(body string, deep bool) (string, bool) {
	if body == "" {
		countEngine("simplifier")
		return "simplifier", true
	}
	ms := 4000
	if deep {
		if failing.Load() >= 12 {
			return "", false // the function fails anyway
		}
		ms = obligationTimeoutMS
	}
	r := ask(body, ms)
	if r == "unsat" {
		countEngine("z3-4.8.12")
		return "z3-4.8.12", true
	}
	if !deep {
		return "", false
	}
	if v, ok := qcache.Load("deep" + body); ok {
		s := v.(string)
		if s != "" {
			countEngine(s)
		}
		return s, s != ""
	}
	type res struct{ n, r string }
	tmo := deepTimeout
	if failing.Load() >= 3 {
		tmo /= 4
	}
	cands := []struct {
		n, exe string
		args   []string
		script string
	}{
		{"z3-5.3.2", "z3-new", []string{"-in", "-smt2", fmt.Sprintf("-T:%d", int(tmo.Seconds()))}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n" + body + "(check-sat)\n"},
		{"z3-4.8.12", "z3", []string{"-in", "-smt2", fmt.Sprintf("-T:%d", int(tmo.Seconds()))}, body + "(check-sat)\n"},
		{"cvc5-1.1.2", "cvc5", []string{"--lang=smt2", "--arrays-exp", fmt.Sprintf("--tlimit=%d", tmo.Milliseconds())}, "(set-logic ALL)\n" + body + "(check-sat)\n"},
	}
	ch := make(chan res, len(cands))
	stop := make(chan struct{})
	defer close(stop)
	for _, c := range cands {
		c := c
		go func() {
			ch <- res{c.n, oneShot(c.exe, c.args, c.script, tmo+2*time.Second, stop)}
		}()
	}
	out := ""
	for range cands {
		x := <-ch
		if x.r == "unsat" && out == "" {
			out = x.n
			break
		}
	}
	qcache.Store("deep"+body, out)
	if out != "" {
		countEngine(out)
		return out, true
	}
	return "", false
}

func closeSolvers() {
	for {
		select {
		case p := <-solverPool:
			p.kill()
		default:
			return
		}
	}
}
