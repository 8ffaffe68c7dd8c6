package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"
var verifDir = "/verif"
var verbose bool

const specDir = "verifspec"

// isSpec: functions of the specifications.
func isSpec(in *interp, fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	p := in.prog.Fset.Position(f.Pos()).Filename
	if !strings.HasPrefix(p, repoDir+"/") {
		return false
	}
	return strings.HasPrefix(p, filepath.Join(repoDir, specDir)+"/") || strings.HasPrefix(filepath.Base(p), "zz_verif")
}

// inRepo: functions of the analysed repository, specifications excluded.
func (in *interp) inRepo(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	p := ""
	if f.Pkg != nil {
		p = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		p = f.Object().Pkg().Path()
	}
	if p != in.mod && !strings.HasPrefix(p, in.mod+"/") {
		return false
	}
	return !isSpec(in, fn)
}

func overlay() (map[string][]byte, error) {
	ov := map[string][]byte{}
	root := filepath.Join(verifDir, "specs")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		// specs/in/<pkg>/zz_verif_x.go joins the package, the others are packages of their own
		if r, ok := strings.CutPrefix(rel, "in/"); ok {
			r = strings.TrimPrefix(r, "main/")
			ov[filepath.Join(repoDir, r)] = b
		} else {
			ov[filepath.Join(repoDir, specDir, rel)] = b
		}
		return nil
	})
	return ov, err
}

type program struct {
	prog  *ssa.Program
	pkgs  []*packages.Package // in dependency order
	spkgs []*ssa.Package
	specs []*ssa.Package
	mod   string
	all   map[string]*packages.Package
	lost  map[string]string // specifications that cannot be typed, and why
}

func load() (*program, error) {
	ov, err := overlay()
	if err != nil {
		return nil, err
	}
	lost := map[string]string{}
	for round := 0; ; round++ {
		pr, again, err := loadWith(ov, lost)
		if err != nil || !again {
			return pr, err
		}
		if round == 20 {
			return nil, fmt.Errorf("the specifications cannot be typed against the repository")
		}
	}
}

var renamed bool // names.go has been tried

// loadWith loads the repository with the overlay; if parts of the overlay do
// not type-check, it cuts them and asks for another attempt.
func loadWith(ov map[string][]byte, lost map[string]string) (*program, bool, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: repoDir, Overlay: ov, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0")}
	pats := []string{"./..."}
	entries, _ := os.ReadDir(filepath.Join(verifDir, "specs"))
	for _, e := range entries {
		if e.IsDir() && e.Name() != "in" {
			pats = append(pats, "./"+specDir+"/"+e.Name())
		}
	}
	init, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, false, err
	}
	pr := &program{all: map[string]*packages.Package{}, lost: lost}
	var errs []string
	bad := map[string]map[int]string{} // lines of the overlay
	packages.Visit(init, nil, func(p *packages.Package) {
		pr.all[p.PkgPath] = p
		own := p.Module != nil && p.Module.Main
		if own && pr.mod == "" {
			pr.mod = p.Module.Path
		}
		if own {
			for _, e := range p.Errors {
				if f, l := located(e); l > 0 && ov[f] != nil {
					if bad[f] == nil {
						bad[f] = map[int]string{}
					}
					bad[f][l] = e.Error()
				} else {
					errs = append(errs, e.Error())
				}
			}
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		return nil, false, fmt.Errorf("the repository does not type-check with the specifications: %s", strings.Join(errs, "; "))
	}
	if len(bad) > 0 {
		if f := filepath.Join(repoDir, namesFile); bad[f] != nil && !renamed {
			renamed = true
			if src, ok := rename(pr.all[pr.mod]); ok {
				ov[f] = []byte(src)
				return nil, true, nil
			}
		}
		for f, lines := range bad {
			src, err := cut(ov[f], f, lines, lost)
			if err != nil {
				return nil, false, fmt.Errorf("the specifications cannot be typed against the repository: %v in %s: %v", err, f, lines)
			}
			ov[f] = src
		}
		return nil, true, nil
	}
	prog, _ := ssautil.AllPackages(init, ssa.InstantiateGenerics)
	pr.prog = prog
	seen := map[string]bool{}
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if seen[p.PkgPath] {
			return
		}
		seen[p.PkgPath] = true
		var imps []string
		for k := range p.Imports {
			imps = append(imps, k)
		}
		sort.Strings(imps)
		for _, k := range imps {
			visit(p.Imports[k])
		}
		if sp := prog.Package(p.Types); sp != nil && initialised(pr.mod, p.PkgPath) {
			pr.pkgs = append(pr.pkgs, p)
			pr.spkgs = append(pr.spkgs, sp)
		}
	}
	sort.Slice(init, func(i, j int) bool { return init[i].PkgPath < init[j].PkgPath })
	for _, p := range init {
		visit(p)
	}
	return pr, false, nil
}

// initialised: packages whose variables the analysis follows.
func initialised(mod, path string) bool {
	return path == mod || strings.HasPrefix(path, mod+"/") || strings.HasPrefix(path, "github.com/ing-bank/zkrp/")
}

func newInterp(pr *program) *interp {
	return &interp{prog: pr.prog, mod: pr.mod, globals: map[*ssa.Global]*Node{}, stubs: map[string]*Node{}, funcs: map[string]string{}, edges: map[string]bool{}, shapes: map[string]int{}, jsonNil: map[string]bool{}, numInfo: map[*ssa.Function]*fnInfo{}, groups: map[*Node]*Node{}}
}

type violation struct {
	Key    string `json:"key"`
	Detail string `json:"detail"`
}

type result struct {
	Property    string
	Harnesses   []string
	Obligations int
	Discharged  int
	Labels      map[string]int
	Funcs       map[string]string
	Edges       int
	Blocks      int
	Instrs      int
	Joins       int
	Violations  []violation
	Wall        float64
}

// harnesses lists the specification functions of a property.
func harnesses(pr *program, prop string, thorough bool, only string) []*ssa.Function {
	var out []*ssa.Function
	in := &interp{prog: pr.prog}
	for _, p := range pr.spkgs {
		for name, m := range p.Members {
			fn, ok := m.(*ssa.Function)
			if !ok || !strings.HasPrefix(name, prop+"_") || !isSpec(in, fn) {
				continue
			}
			if strings.Contains(name, "_thorough") && !thorough {
				continue
			}
			if only != "" && name != only {
				continue
			}
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

func runHarness(pr *program, fn *ssa.Function, res *result) {
	name := fn.Name()
	t0 := time.Now()
	resetTables()
	in := newInterp(pr)
	in.specRun = name
	current = in
	bad := func(key, f string, a ...any) {
		res.Violations = append(res.Violations, violation{name + ": " + key, fmt.Sprintf(f, a...)})
	}
	defer func() {
		if r := recover(); r != nil {
			where := ""
			if len(in.stack) > 0 {
				where = " [in " + strings.Join(in.stack[max(0, len(in.stack)-6):], " > ") + "]"
			}
			if f, ok := r.(failure); ok {
				bad("undecided", "the analysis cannot decide this specification: %s; last call from the specification: %s%s", f.msg, in.lastAPI, where)
			} else {
				if verbose {
					panic(r)
				}
				bad("undecided", "the analysis failed: %v; last call from the specification: %s%s", r, in.lastAPI, where)
			}
		}
		res.Harnesses = append(res.Harnesses, name)
		for k, v := range in.funcs {
			res.Funcs[k] = v
		}
		res.Edges += len(in.edges)
		res.Blocks += in.blocks
		res.Instrs += in.instrs
		res.Joins += in.joins
		for _, c := range in.checks {
			res.Obligations++
			res.Labels[name+": "+c.label]++
			if c.ok {
				res.Discharged++
			} else {
				bad(c.label, "%s", c.detail)
			}
		}
		if verbose {
			fmt.Printf("  %-40s %4d obligations %6.2fs (%d nodes, %d bdds)\n", name, len(in.checks), time.Since(t0).Seconds(), len(table), len(bddTable))
		}
	}()
	st := &state{cond: bddT}
	in.initGlobals(st, pr.spkgs)
	in.funcs = map[string]string{}
	in.edges = map[string]bool{}
	if len(in.panics) > 0 {
		bad("initialisation", "a package initialiser can panic at %s: %s", in.panics[0].pos, in.panics[0].why)
		in.panics = nil
	}
	in.call(st, fn, nil, nil, token.NoPos)
	seen := map[string]bool{}
	for _, p := range in.panics {
		if refuted(p.cond) {
			continue
		}
		k := fmt.Sprintf("panic at %s (%s)", p.pos, p.why)
		if seen[k] {
			continue
		}
		seen[k] = true
		bad("panic: "+p.why, "%s is reachable when %s", k, cubeText(bddAnd(p.cond, axioms)))
	}
	if !feasible(st.cond) && len(in.panics) == 0 {
		bad("vacuous", "the specification never reaches its end; last call: %s", in.lastAPI)
	}
}

// cubeText shows one case in which a condition holds.
func cubeText(b *bdd) string {
	if b == bddT {
		return "always"
	}
	var s []string
	for b.v != nil {
		if b.hi != bddF {
			// prefer the shorter branch
			if b.lo == bddT {
				s = append(s, "not "+showD(b.v, 5))
				break
			}
			s = append(s, showD(b.v, 5))
			b = b.hi
		} else {
			s = append(s, "not "+showD(b.v, 5))
			b = b.lo
		}
	}
	if len(s) > 8 {
		s = append(s[:8], "…")
	}
	t := strings.Join(s, " and ")
	if len(t) > 1500 {
		t = strings.ToValidUTF8(t[:1500], "") + "…"
	}
	return t
}

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

func main() {
	var prop, only, tier string
	var listOnly bool
	flag.StringVar(&prop, "property", "", "property to decide")
	flag.StringVar(&only, "only", "", "only this specification")
	flag.StringVar(&tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&repoDir, "repo", "/repo", "repository")
	flag.StringVar(&verifDir, "verif", "/verif", "this directory")
	flag.BoolVar(&verbose, "v", false, "verbose")
	flag.BoolVar(&listOnly, "list", false, "list the specifications")
	flag.Parse()
	os.Exit(decide(prop, only, tier))
}

// watch ends the analysis with an undecided verdict if it takes too much time or memory.
func watch(res *result, tier, only string) {
	limit := 600 * time.Second
	if tier == "thorough" {
		limit = 4 * time.Hour
	}
	t0 := time.Now()
	go func() {
		for {
			time.Sleep(250 * time.Millisecond)
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			why := ""
			if time.Since(t0) > limit {
				why = "time"
			} else if ms.HeapAlloc > 14<<30 {
				why = "memory"
			}
			if why != "" {
				where := ""
				if cur := current; cur != nil {
					where = " in " + cur.specRun + "; last call from the specification: " + cur.lastAPI
				}
				r := &result{Property: res.Property, Labels: map[string]int{}, Funcs: map[string]string{}}
				r.Violations = []violation{{"undecided", "the analysis needs too much " + why + where}}
				os.Exit(report(r, tier, only))
			}
		}
	}()
}

var current *interp

func decide(prop, only, tier string) int {
	t0 := time.Now()
	res := &result{Property: prop, Labels: map[string]int{}, Funcs: map[string]string{}}
	watch(res, tier, only)
	pr, err := load()
	if err != nil {
		res.Violations = append(res.Violations, violation{"load", err.Error()})
	} else {
		if verbose {
			fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
		}
		for _, p := range pr.spkgs {
			p.Build()
		}
		hs := harnesses(pr, prop, tier == "thorough", only)
		cutSpecs := false
		for name, why := range pr.lost {
			if strings.HasPrefix(name, prop+"_") && (only == "" || only == name) {
				if why == "" {
					cutSpecs = true
					fmt.Printf("%s is left out: it does not fit the functions of the repository\n", name)
				} else {
					res.Violations = append(res.Violations, violation{name + ": undecided", "the specification cannot be typed against the repository: " + why})
				}
			}
		}
		if len(hs) == 0 {
			res.Violations = append(res.Violations, violation{"anchor", "no specification found for " + prop})
		}
		for _, h := range hs {
			mapRanged, mapReverse = false, false
			runHarness(pr, h, res)
			if mapRanged {
				mapReverse = true
				runHarness(pr, h, res)
			}
		}
		runRules(pr, prop, res)
		if only == "" && !cutSpecs {
			checkFloor(res, tier)
		}
	}
	res.Wall = time.Since(t0).Seconds()
	return report(res, tier, only)
}

// checkFloor compares the number of obligations with the confirmed number.
func checkFloor(res *result, tier string) {
	b, err := os.ReadFile(filepath.Join(verifDir, "floors.json"))
	if err != nil {
		return
	}
	var fl map[string]int
	if json.Unmarshal(b, &fl) != nil {
		res.Violations = append(res.Violations, violation{"floor", "floors.json cannot be read"})
		return
	}
	if n := fl[res.Property]; 4*res.Obligations < 3*n && len(res.Violations) == 0 {
		res.Violations = append(res.Violations, violation{"floor", fmt.Sprintf("only %d obligations were found, %d expected", res.Obligations, n)})
	}
}

func report(res *result, tier, only string) int {
	var known []knownFinding
	if b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.jsonl")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			var k knownFinding
			if strings.TrimSpace(l) != "" && json.Unmarshal([]byte(l), &k) == nil && k.Status == "known" && k.Property == res.Property {
				known = append(known, k)
			}
		}
	}
	var open []violation
	for _, v := range res.Violations {
		hit := false
		for _, k := range known {
			if k.Key == v.Key {
				hit = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", res.Property, k.What)
			}
		}
		if !hit {
			open = append(open, v)
		}
	}
	var funcs []string
	for k, v := range res.Funcs {
		funcs = append(funcs, k+" ("+v+")")
	}
	sort.Strings(funcs)
	fmt.Printf("%s (%s): %d specifications, %d obligations, %d discharged; %d repository functions, %d call sites, %d blocks, %d instructions, %d joins analysed; %.1fs\n",
		res.Property, tier, len(res.Harnesses), res.Obligations, res.Discharged, len(res.Funcs), res.Edges, res.Blocks, res.Instrs, res.Joins, res.Wall)
	if only == "" {
		writeEvidence(res, tier, funcs, open)
	}
	if len(open) == 0 {
		return 0
	}
	path := filepath.Join(verifDir, "evidence", res.Property+".violation.txt")
	var sb strings.Builder
	for _, v := range open {
		fmt.Fprintf(&sb, "%s\n    %s\n", v.Key, v.Detail)
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	os.WriteFile(path, []byte(sb.String()), 0o644)
	for i, v := range open {
		if i == 12 && !verbose {
			fmt.Printf("… and %d more\n", len(open)-i)
			break
		}
		d := v.Detail
		if len(d) > 700 && !verbose {
			d = strings.ToValidUTF8(d[:700], "") + "…"
		}
		fmt.Printf("%s\n    %s\n", v.Key, d)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", res.Property, path)
	return 1
}

func writeEvidence(res *result, tier string, funcs []string, open []violation) {
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	var vs []string
	for _, v := range open {
		vs = append(vs, v.Key+": "+v.Detail)
	}
	ev := map[string]any{
		"property": res.Property,
		"tier":     tier,
		"seed":     seed,
		"level":    "proof",
		"coverage": map[string]any{
			"obligations":       res.Obligations,
			"discharged":        res.Discharged,
			"checker_cmd":       "bash /verif/run.sh " + res.Property + " " + tier,
			"trusted_base":      trustedBase,
			"specifications":    res.Harnesses,
			"functions":         funcs,
			"call_sites":        res.Edges,
			"blocks":            res.Blocks,
			"instructions":      res.Instrs,
			"joins":             res.Joins,
			"obligation_labels": res.Labels,
		},
		"assumptions": assumptions[res.Property],
		"wall_s":      res.Wall,
	}
	if ev["assumptions"] == nil || len(assumptions[res.Property]) == 0 {
		ev["assumptions"] = []string{}
	}
	ev["violations"] = len(vs)
	if len(vs) > 0 {
		ev["violation_details"] = vs
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, res.Property+".json"), append(b, '\n'), 0o644)
}

var trustedBase = []string{
	"golang.org/x/tools/go/ssa: translation of the source to SSA form",
	"the models of library functions in /verif/analyzer/lib*.go (math/big, encoding/json, crypto, circl, go-ethereum curve primitives)",
	"the normal forms in /verif/analyzer (polynomials, decision diagrams, linear combinations, byte strings)",
	"the specifications in /verif/specs",
}

var assumptions = map[string][]string{}
