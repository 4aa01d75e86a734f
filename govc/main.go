package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

var (
	obligationTimeoutMS = 10000
	deepTimeout         = 20 * time.Second
	forProp             string
)

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "govc: "+f+"\n", a...)
	os.Exit(2)
}

func dumpQuery(name, body string) {
	_ = os.WriteFile("/tmp/govc_"+name+".smt2", []byte(body), 0o644)
}

func loadSpec(dir string) {
	sp := &Spec{preds: map[string]*PredDef{}, ghosts: map[string]*GhostDef{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.vc"))
	sort.Strings(fs)
	for _, f := range fs {
		parseSpecFile(f, sp)
	}
	theSpec = sp
}

func setup(contracts string, withProgram bool) {
	loadSpec(contracts)
	indexContracts()
	if !withProgram {
		return
	}
	clientFiles, _ = filepath.Glob(filepath.Join(contracts, "*.go"))
	if err := setupProgram(repoDir); err != nil {
		fatal("cannot load %s: %v", repoDir, err)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(specErr); ok {
					fatal("%s", e.msg)
				}
				panic(r)
			}
		}()
		installSpec(theSpec)
		indexMonitors()
		indexTypeInvs()
		for _, g := range theSpec.ghosts {
			(&evalCtx{pkg: thePkgs[0]}).ghostHeap(g)
		}
	}()
	initGlobals()
}

func main() {
	prop := flag.String("prop", "", "property to check")
	worker := flag.Bool("worker", false, "worker mode: function keys on stdin")
	fnKey := flag.String("fn", "", "verify one function (pkg:name)")
	contracts := flag.String("contracts", "/verif/contracts", "contract directory")
	out := flag.String("out", "", "write results as JSON")
	par := flag.Int("j", runtime.NumCPU(), "parallel workers")
	verbose := flag.Bool("v", false, "print every obligation")
	list := flag.Bool("list", false, "list contracts")
	ssaOf := flag.String("ssa", "", "print SSA of a function")
	flag.StringVar(&repoDir, "repo", "/repo", "repository")
	flag.IntVar(&obligationTimeoutMS, "t", 10000, "first solver timeout (ms)")
	deep := flag.Int("deep", 20, "portfolio timeout (s)")
	flag.StringVar(&forProp, "for", "", "property the worker decides")
	flag.Parse()
	deepTimeout = time.Duration(*deep) * time.Second
	solverSem = make(chan struct{}, 4)
	switch {
	case *worker:
		solverSem = make(chan struct{}, runtime.NumCPU())
		if os.Getenv("GOVC_SLOTS") != "" {
			slotR, slotW = os.NewFile(3, "slots"), os.NewFile(4, "slots")
		}
		setup(*contracts, true)
		runWorker()
		closeSolvers()
	case *ssaOf != "":
		setup(*contracts, true)
		for k, f := range funcByID {
			if k == *ssaOf {
				f.WriteTo(os.Stdout)
			}
		}
	case *fnKey != "":
		setup(*contracts, true)
		solverSem = make(chan struct{}, runtime.NumCPU())
		for _, k := range strings.Split(*fnKey, ",") {
			r := verifyKey(k)
			printResult(r, *verbose)
		}
		closeSolvers()
	case *list:
		setup(*contracts, false)
		for _, f := range theSpec.funcs {
			fmt.Println(f.pkg+":"+f.name, f.props, f.extern)
		}
	default:
		setup(*contracts, false)
		os.Exit(runProperty(*prop, *par, *out, *contracts, *deep, *verbose))
	}
}

func verifyKey(k string) *Result {
	if strings.HasPrefix(k, "lemma:") {
		for _, l := range theSpec.lemmas {
			if "lemma:"+l.name == k {
				installUpTo(l.name)
				return proveLemma(l)
			}
		}
		fatal("no lemma %s", k)
	}
	if strings.HasPrefix(k, "immutable:") {
		f := k[len("immutable:"):]
		r := &Result{Key: k}
		w := immutableCheck(f)
		o := &OblResult{Fn: f, Kind: "immutable", Text: "every assignment of " + f + " happens while its object is built", OK: w == "", Trace: w, Engine: "whole-program scan", N: 1}
		r.Obls = append(r.Obls, o)
		return r
	}
	if strings.HasPrefix(k, "builders:") {
		return &Result{Key: k, Used: buildersOf(k[len("builders:"):])}
	}
	installUpTo("")
	fs := contractIdx[k]
	if fs == nil {
		fatal("no contract for %s", k)
	}
	return verifyFunc(fs)
}

var lemmaBase map[string][]*Term

// installUpTo makes the lemmas before name available (all of them when name is empty).
func installUpTo(name string) {
	if lemmaBase == nil {
		lemmaBase = map[string][]*Term{}
		for k, v := range axioms {
			lemmaBase[k] = v
		}
	}
	// drop lemma axioms, keep others
	symMu.Lock()
	for k, v := range axioms {
		var keep []*Term
		for _, t := range v {
			if !lemmaAx[t] {
				keep = append(keep, t)
			}
		}
		axioms[k] = keep
	}
	symMu.Unlock()
	for _, l := range theSpec.lemmas {
		if l.name == name {
			break
		}
		if lemmaTerms[l.name] == nil {
			before := map[string]int{}
			for k, v := range axioms {
				before[k] = len(v)
			}
			installLemma(l)
			for k, v := range axioms {
				for i := before[k]; i < len(v); i++ {
					lemmaAx[v[i]] = true
					lemmaTerms[l.name] = append(lemmaTerms[l.name], symTerm{k, v[i]})
				}
			}
			continue
		}
		for _, s := range lemmaTerms[l.name] {
			addAxiom(s.sym, s.t)
		}
	}
}

type symTerm struct {
	sym string
	t   *Term
}

var lemmaAx = map[*Term]bool{}
var lemmaTerms = map[string][]symTerm{}

func printResult(r *Result, verbose bool) {
	ok, bad := 0, 0
	for _, o := range r.Obls {
		if o.OK {
			ok++
			if verbose {
				fmt.Printf("  ok   [%s %s] %s @%s (%s)\n", o.Kind, o.Label, o.Text, o.Pos, o.Engine)
			}
			continue
		}
		bad++
		fmt.Printf("  FAIL [%s %s] %s @%s\n       path %s\n", o.Kind, o.Label, o.Text, o.Pos, o.Trace)
		if verbose {
			fmt.Printf("       goal %s\n", o.Goal)
		}
		if o.Query != "" && bad <= 6 {
			dumpQuery(fmt.Sprintf("fail%d", bad), o.Query)
		}
	}
	fmt.Printf("%s: %d proved, %d failed, %d exits, %d queries, solver %.1fs, wall %.1fs\n", r.Key, ok, bad, r.Exits, r.Queries, float64(r.SolverNS)/1e9, float64(r.WallMS)/1e3)
	if verbose {
		fmt.Println("   used", r.Used)
		fmt.Println("   inlined", r.Inlined)
		fmt.Println("   externs", r.Externs)
	}
}

func runWorker() {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	w := bufio.NewWriter(os.Stdout)
	for sc.Scan() {
		k := strings.TrimSpace(sc.Text())
		if k == "" {
			continue
		}
		r := verifyKey(k)
		b, _ := json.Marshal(r)
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
}

// ---------------------------------------------------------------- property runs

type propRun struct {
	mu      sync.Mutex
	cond    *sync.Cond
	queue   []string
	seen    map[string]bool
	busy    int
	results map[string]*Result
	failed  string
}

func hasProp(f *FuncSpec, p string) bool {
	for _, q := range f.props {
		if q == p {
			return true
		}
	}
	return false
}

// isLight: only the locking discipline of f matters to property p; its other obligations and its callees are
// decided by the checks of the properties it is tagged with.
func isLight(f *FuncSpec, p string) bool {
	if f == nil {
		return false
	}
	for _, q := range f.light {
		if q == p {
			return true
		}
	}
	return false
}

var lightKinds = map[string]bool{"blocking": true, "condlock": true, "guard": true, "lock": true, "lockorder": true, "locks": true, "role": true, "volatile": true, "wait": true, "wakeup": true, "immutable": true}

func propRoots(p string) []string {
	var out []string
	for _, f := range theSpec.funcs {
		if !f.extern && (p == "ALL" || hasProp(f, p) || isLight(f, p)) {
			out = append(out, f.pkg+":"+f.name)
		}
	}
	for _, l := range theSpec.lemmas {
		if !l.trust {
			out = append(out, "lemma:"+l.name)
		}
	}
	return out
}

// counts tells whether an obligation belongs to a property.
func counts(o *OblResult, p string, tagged bool) bool {
	if p == "ALL" {
		return true
	}
	if o.Label == "" {
		return true
	}
	isProp := false
	for _, l := range strings.Split(o.Label, ".") {
		if len(l) == 3 && l[0] == 'C' {
			isProp = true
			if l == p {
				return true
			}
		}
	}
	return !isProp
}

func runProperty(p string, par int, out, contracts string, deep int, verbose bool) int {
	t0 := time.Now()
	pr := &propRun{seen: map[string]bool{}, results: map[string]*Result{}}
	pr.cond = sync.NewCond(&pr.mu)
	push := func(k string) {
		if !pr.seen[k] {
			pr.seen[k] = true
			pr.queue = append(pr.queue, k)
		}
	}
	for _, k := range propRoots(p) {
		push(k)
	}
	if len(pr.queue) == 0 {
		fatal("no contracts for property %s", p)
	}
	pR, pW, err := os.Pipe()
	if err != nil {
		fatal("%v", err)
	}
	_, _ = pW.Write(make([]byte, runtime.NumCPU()))
	f := p
	if f == "ALL" {
		f = ""
	}
	var wg sync.WaitGroup
	for i := 0; i < par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(os.Args[0], "-worker", "-contracts", contracts, "-repo", repoDir, "-t", fmt.Sprint(obligationTimeoutMS), "-deep", fmt.Sprint(deep))
			cmd.Args = append(cmd.Args, "-for", f)
			cmd.ExtraFiles = []*os.File{pR, pW}
			cmd.Env = append(os.Environ(), "GOVC_SLOTS=1")
			cmd.Stderr = os.Stderr
			in, _ := cmd.StdinPipe()
			outp, _ := cmd.StdoutPipe()
			if err := cmd.Start(); err != nil {
				pr.mu.Lock()
				pr.failed = err.Error()
				pr.cond.Broadcast()
				pr.mu.Unlock()
				return
			}
			rd := bufio.NewReaderSize(outp, 1<<20)
			for {
				pr.mu.Lock()
				for len(pr.queue) == 0 && pr.busy > 0 && pr.failed == "" {
					pr.cond.Wait()
				}
				if len(pr.queue) == 0 || pr.failed != "" {
					pr.cond.Broadcast()
					pr.mu.Unlock()
					break
				}
				k := pr.queue[0]
				pr.queue = pr.queue[1:]
				pr.busy++
				pr.mu.Unlock()
				fmt.Fprintln(in, k)
				line, err := rd.ReadBytes('\n')
				r := &Result{}
				if err == nil {
					err = json.Unmarshal(line, r)
				}
				pr.mu.Lock()
				pr.busy--
				if err != nil {
					pr.failed = fmt.Sprintf("worker died on %s: %v", k, err)
				} else {
					pr.results[k] = r
					for _, u := range r.Used {
						if !isLight(contractIdx[k], p) {
							push(u)
						}
					}
					for _, u := range r.TypeInvs {
						push("builders:" + u)
					}
					for _, u := range r.Immutables {
						push("immutable:" + u)
					}
				}
				pr.cond.Broadcast()
				pr.mu.Unlock()
				if err != nil {
					break
				}
			}
			_ = in.Close()
			_ = cmd.Wait()
		}()
	}
	wg.Wait()
	if pr.failed != "" {
		fatal("%s", pr.failed)
	}
	var keys []string
	for k := range pr.results {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	type Out struct {
		Property string
		Results  []*Result
		WallS    float64
	}
	o := &Out{Property: p, WallS: time.Since(t0).Seconds()}
	bad := 0
	for _, k := range keys {
		r := pr.results[k]
		fs := contractIdx[k]
		tagged := fs != nil && hasProp(fs, p)
		var keep []*OblResult
		for _, ob := range r.Obls {
			if isLight(fs, p) && !lightKinds[ob.Kind] {
				continue
			}
			if counts(ob, p, tagged) {
				keep = append(keep, ob)
				if !ob.OK {
					bad++
				}
			}
		}
		r.Obls = keep
		o.Results = append(o.Results, r)
		if verbose {
			printResult(r, false)
		}
	}
	if out != "" {
		b, _ := json.MarshalIndent(o, "", " ")
		if err := os.WriteFile(out, b, 0o644); err != nil {
			fatal("%v", err)
		}
	}
	fmt.Printf("%s: %d functions, %d failed obligations, %.1fs\n", p, len(keys), bad, o.WallS)
	if bad > 0 {
		return 1
	}
	return 0
}
