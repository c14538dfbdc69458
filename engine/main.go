package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"golang.org/x/tools/go/ssa"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

var verifDir string

func fatalf(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

type HarnessSpec struct {
	name      string
	mode      string
	delay     int
	delayT    int
	race      bool
	mapOrder  bool
	tier      string
	budget    int
	budgetT   int
	steps     int64
	term      bool
	noDedupe  bool
	redirects [][2]string
	stubs     [][2]string
	doc       string
	query     int
	must      []string
}

func parseSpecs(file string) ([]*HarnessSpec, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, nil, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	var out []*HarnessSpec
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Doc == nil {
			continue
		}
		var s *HarnessSpec
		var doc []string
		for _, c := range fd.Doc.List {
			t := c.Text
			if !strings.HasPrefix(t, "//verif:") {
				doc = append(doc, strings.TrimSpace(strings.TrimPrefix(t, "//")))
				continue
			}
			if s == nil {
				s = &HarnessSpec{name: fd.Name.Name, mode: "real", budget: 60, budgetT: 600, steps: 3000000}
			}
			for _, kv := range strings.Fields(strings.TrimPrefix(t, "//verif:")) {
				k, v := kv, ""
				if i := strings.IndexByte(kv, '='); i >= 0 {
					k, v = kv[:i], kv[i+1:]
				}
				num := func() int { n, _ := strconv.Atoi(v); return n }
				switch k {
				case "harness":
				case "real", "fp":
					s.mode = k
				case "delay":
					s.delay, s.delayT = num(), num()
				case "delayT":
					s.delayT = num()
				case "full":
					s.delay, s.delayT = -1, -1
				case "fullT":
					s.delayT = -1
				case "race":
					s.race = true
				case "maporder":
					s.mapOrder = true
				case "thorough":
					s.tier = "thorough"
				case "budget":
					s.budget = num()
				case "budgetT":
					s.budgetT = num()
				case "steps":
					s.steps = int64(num())
				case "term":
					s.term = true
				case "nodedupe":
					s.noDedupe = true
				case "query":
					s.query = num()
				case "must": // places that some path has to reach
					s.must = append(s.must, strings.Split(v, ",")...)
				case "stub": // function of the package under test replaced in the encoding and in the replay
					j := strings.LastIndexByte(v, ':')
					t := targetPkg + "." + v[:j]
					if strings.Contains(v[:j], ".") {
						t = v[:j]
					}
					if t == "plot.Save" {
						t = "(*gonum.org/v1/plot.Plot).Save"
					}
					s.redirects = append(s.redirects, [2]string{t, v[j+1:]})
					s.stubs = append(s.stubs, [2]string{v[:j], v[j+1:]})
				case "redirect":
					j := strings.LastIndexByte(v, ':')
					s.redirects = append(s.redirects, [2]string{v[:j], v[j+1:]})
				default:
					return nil, fmt.Errorf("%s: unknown directive %s", fd.Name.Name, k)
				}
			}
		}
		if s != nil {
			s.doc = strings.Join(doc, " ")
			out = append(out, s)
		}
	}
	return out, nil
}

type known struct{ prop, harness, msg string }

func loadKnown() []known {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^KNOWN property=(\S+) harness=(\S+) msg="(.*)"`)
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil {
			out = append(out, known{m[1], m[2], m[3]})
		}
	}
	return out
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	vd := flag.String("verif", "", "verif directory")
	only := flag.String("harness", "", "only this harness")
	verbose := flag.Bool("v", false, "verbose")
	prof := flag.String("prof", "", "cpu profile")
	replay := flag.String("replay", "", "replay file")
	workers := flag.Int("j", 8, "workers")
	budget := flag.Int("budget", 0, "override time budget per harness (s)")
	flag.Parse()
	debug.SetGCPercent(200)
	t0 := time.Now()
	verifDir = *vd
	if verifDir == "" {
		verifDir, _ = os.Getwd()
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
		if *tier == "" {
			*tier = "quick"
		}
	}
	tierN := 0
	if *tier == "thorough" {
		tierN = 1
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fatalf("%v", err)
		}
		m := regexp.MustCompile(`# property (\S+)`).FindSubmatch(b)
		if m == nil {
			fatalf("no property in replay file")
		}
		*prop = string(m[1])
	}
	hdir := filepath.Join(verifDir, "harness")
	hfile := filepath.Join(hdir, *prop+".go")
	specs, err := parseSpecs(hfile)
	if err != nil {
		fatalf("%v", err)
	}
	work := filepath.Join(verifDir, "work", fmt.Sprintf("%s-%d", *prop, os.Getpid()))
	if err := os.MkdirAll(work, 0o755); err != nil {
		fatalf("%v", err)
	}
	cleanup := func() { os.RemoveAll(work) }
	defer cleanup()
	for _, n := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(*repo, n))
		if err == nil {
			os.WriteFile(filepath.Join(work, n), b, 0o644)
		}
	}
	modCopy = filepath.Join(work, "go.mod")
	overlay := map[string][]byte{}
	hs := map[string]string{}
	dir := "featselect"
	if src, err := os.ReadFile(hfile); err == nil {
		if m := regexp.MustCompile(`(?m)^package (\w+)$`).FindSubmatch(src); m != nil {
			dir = string(m[1]) // featselect, cmd or zzvprogs
		}
	}
	if dir == progDir {
		for n, src := range programs(*repo) {
			overlay[filepath.Join(*repo, progDir, n)] = []byte(src)
		}
	}
	files := []string{"common.go", *prop + ".go"}
	if extra, _ := filepath.Glob(filepath.Join(hdir, "lib_*.go")); extra != nil {
		src, _ := os.ReadFile(hfile)
		for _, e := range extra {
			if strings.Contains(string(src), "//uses "+filepath.Base(e)) {
				files = append(files, filepath.Base(e))
			}
		}
	}
	for _, n := range files {
		b, err := os.ReadFile(filepath.Join(hdir, n))
		if err != nil {
			fatalf("%v", err)
		}
		b = bytes.Replace(b, []byte("package featselect"), []byte("package "+dir), 1)
		overlay[filepath.Join(*repo, dir, "zz_verif_"+n)] = b
		hs[n] = string(b)
	}
	var names []string
	for _, s := range specs {
		names = append(names, s.name)
	}
	rp := &Replayer{pkgDir: dir, repo: *repo, dir: work, harness: hs, names: names, tier: tierN, stubs: map[string][][2]string{}}
	for _, s := range specs {
		for _, st := range s.stubs {
			rp.stubs[st[0]] = append(rp.stubs[st[0]], [2]string{s.name, st[1]})
		}
	}
	if *replay != "" {
		b, _ := os.ReadFile(*replay)
		var keep []string
		race := strings.Contains(string(b), "# kind race")
		for _, l := range strings.Split(string(b), "\n") {
			if !strings.HasPrefix(l, "#") {
				keep = append(keep, l)
			}
		}
		res, raw, err := rp.runFile(race, strings.Join(keep, "\n"), 120*time.Second)
		fmt.Println(raw)
		for _, r := range res {
			fmt.Println(r.status, r.obs)
		}
		cleanup()
		if err != nil {
			os.Exit(1)
		}
		return
	}
	// the native binary builds while the engine loads
	go rp.build(false)
	var dropped []string
	eng, err := loadEngine(*repo, dir, overlay)
	for try := 0; err != nil && try < 6; try++ {
		// the harnesses are written against the current tree: where a change renames something
		// internal that one of them names, only that declaration is left out
		rp.mu.Lock()
		n, cut := prune(err, *repo, dir, overlay, hs)
		rp.mu.Unlock()
		if n == 0 {
			break
		}
		dropped = append(dropped, cut...)
		eng, err = loadEngine(*repo, dir, overlay)
	}
	if err == nil {
		again := len(dropped) > 0
		for f, l := range rp.stubs {
			var keep [][2]string
			for _, st := range l {
				if t := eng.pkg.Func(st[1]); t != nil && eng.stubFits(targetPkg+"."+f, t) {
					keep = append(keep, st)
				}
			}
			if len(keep) != len(l) {
				dropped = append(dropped, "replacement of "+f)
				again = true
			}
			rp.fitting = append(rp.fitting, fitStub{f, keep})
		}
		if again {
			var keepN []string
			for _, n := range names {
				if eng.pkg.Func(n) != nil {
					keepN = append(keepN, n)
				}
			}
			rp.rebuild(keepN)
		}
	}
	if err != nil {
		cleanup()
		fatalf("cannot load %s: %v", *repo, err)
	}
	loadT := time.Since(t0)
	natives := builtinNatives()
	kn := loadKnown()
	var violations []*Violation
	var knownHit []*Violation
	type hres struct {
		spec *HarnessSpec
		x    *Explorer
		d    time.Duration
	}
	var results []hres
	isKnown := func(h, m string) bool {
		for _, k := range kn {
			if k.prop == *prop && k.harness == h && k.msg == m {
				return true
			}
		}
		return false
	}
	// a check answers well within 900 s whatever the tree looks like
	total := 600 * time.Second
	if tierN == 1 {
		total = 3 * time.Hour
	}
	var todo []*HarnessSpec
	for _, s := range specs {
		if s.tier == "thorough" && tierN == 0 {
			continue
		}
		if *only != "" && !regexp.MustCompile("^("+*only+")$").MatchString(s.name) {
			continue
		}
		if eng.pkg.Func(s.name) == nil {
			dropped = append(dropped, s.name+" (does not compile against this tree)")
			continue
		}
		todo = append(todo, s)
	}
	for i, s := range todo {
		if len(violations) > 0 && tierN == 0 {
			dropped = append(dropped, s.name+" (not run: a violation was found before)")
			continue
		}
		cfg := Config{fp: s.mode == "fp", stepLimit: s.steps, mapOrder: s.mapOrder, race: s.race, delay: s.delay, noDedupe: s.noDedupe}
		cfg.term = s.term
		if tierN == 1 {
			cfg.delay = s.delayT
		}
		x := newExplorer(eng, cfg, natives)
		x.tier, x.harness, x.prop, x.replayer = tierN, s.name, *prop, rp
		x.queryTimeout = 4000
		if tierN == 1 {
			x.queryTimeout = 30000
		}
		if s.query > 0 {
			x.queryTimeout = int64(s.query)
		}
		x.hfn = eng.pkg.Func(s.name)
		for _, rd := range s.redirects {
			f := eng.pkg.Func(rd[1])
			if f == nil {
				x.noteMsg("stub " + rd[1] + " left out")
				continue
			}
			if eng.stubFits(rd[0], f) {
				x.redirects[rd[0]] = f
			}
		}
		b := s.budget
		if tierN == 1 {
			b = s.budgetT
		}
		if *budget > 0 {
			b = *budget
		}
		bd := time.Duration(b) * time.Second
		if left := total - time.Since(t0) - time.Duration(len(todo)-1-i)*15*time.Second; *budget == 0 && left < bd {
			bd = left
			if bd < 5*time.Second {
				bd = 5 * time.Second
			}
		}
		x.known = map[string]bool{}
		for _, k := range kn {
			if k.prop == *prop && k.harness == s.name {
				x.known[k.msg] = true
			}
		}
		x.grace = 10 * time.Second
		if tierN == 1 {
			x.grace = 60 * time.Second
		}
		ts := time.Now()
		x.run(*workers, bd)
		rp.validate(x)
		if !x.timedOut && x.aborted == 0 && x.undecided == 0 && x.unknownBranches == 0 && len(x.confirmed) == 0 {
			for _, l := range s.must {
				if x.reached[l] == 0 {
					if v := rp.confirmMust(x, l); v != nil {
						x.confirmed[v.msg] = v
					} else {
						x.noteMsg("not reached symbolically, but by the real code: " + l)
					}
				}
			}
		}
		results = append(results, hres{s, x, time.Since(ts)})
		var ms []string
		for m := range x.confirmed {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		for _, m := range ms {
			v := x.confirmed[m]
			if isKnown(s.name, m) {
				knownHit = append(knownHit, v)
			} else {
				violations = append(violations, v)
			}
		}
		if *verbose {
			fmt.Printf("%s: %.1fs paths=%d ended=%d aborted=%d states=%d trans=%d dedup=%d steps=%d discharged=%d trivial=%d undecided=%d unknownBr=%d timedOut=%v confirmed=%d unconf=%v reached=%v\n",
				s.name, time.Since(ts).Seconds(), x.paths, x.ended, x.aborted, x.branches, x.trans, x.deduped, x.steps, x.discharged, x.trivial, x.undecided, x.unknownBranches, x.timedOut, len(x.confirmed), x.unconf, x.reached)
			for _, n := range x.sortedNotes() {
				fmt.Println("   note:", n)
			}
			fmt.Printf("   queries=%d sat=%d unsat=%d unknown=%d cache=%d model=%d solver=%.1fs max=%.1fs validated=%d\n", gstats.queries, gstats.sat, gstats.unsat, gstats.unknown, gstats.cacheHits, gstats.modelHits, float64(gstats.solverNs)/1e9, float64(gstats.maxNs)/1e9, rp.validated)
		}
	}
	if *verbose {
		for _, d := range dropped {
			fmt.Println("   left out:", d)
		}
		for _, m := range rp.mismatches {
			fmt.Println("   mismatch:", m)
		}
	}
	// evidence
	var tot struct {
		paths, ended, aborted, branches, trans, steps, disch, triv, undec, unkBr, dedup int64
	}
	stubs := map[string]bool{}
	fnTarget := map[string]bool{}
	fnOther := map[string]bool{}
	var bounds, samples, notes []string
	exhaustive := true
	for _, n := range dropped {
		notes = append(notes, "left out: "+n)
		exhaustive = false
	}
	for _, r := range results {
		x := r.x
		tot.paths += x.paths
		tot.ended += x.ended
		tot.aborted += x.aborted
		tot.branches += x.branches
		tot.trans += x.trans
		tot.steps += x.steps
		tot.disch += x.discharged
		tot.triv += x.trivial
		tot.undec += x.undecided
		tot.unkBr += x.unknownBranches
		tot.dedup += x.deduped
		x.stubs.Range(func(k, _ interface{}) bool {
			if !strings.HasPrefix(k.(string), intrPkg+"v") && !strings.HasPrefix(k.(string), cmdPkg+".v") && !strings.HasPrefix(k.(string), progPkg+".v") {
				stubs[k.(string)] = true
			}
			return true
		})
		x.fnsUsed.Range(func(k, _ interface{}) bool {
			f := k.(*Fn)
			if f.fn.Pkg != nil && isTarget(f.fn.Pkg.Pkg.Path()) {
				if pos := eng.prog.Fset.Position(f.fn.Pos()); !strings.Contains(pos.Filename, "zz_verif_") {
					fnTarget[strings.ReplaceAll(f.name, "github.com/davidkleiven/goselect/", "")] = true
				}
			} else {
				fnOther[f.name] = true
			}
			return true
		})
		comp := !x.timedOut && x.aborted == 0 && x.undecided == 0
		if !comp || x.cfg.delay > 0 {
			exhaustive = false
		}
		ds := "single schedule (default order)"
		if x.cfg.delay < 0 {
			ds = "all schedules"
		} else if x.cfg.delay > 0 {
			ds = fmt.Sprintf("schedules with up to %d deviations from the default order", x.cfg.delay)
		}
		bounds = append(bounds, fmt.Sprintf("%s: %s [arithmetic: %s; %s; paths %d, pruned %d, aborted %d; complete=%v; %.1fs]", r.spec.name, r.spec.doc, map[bool]string{true: "IEEE float64", false: "exact reals"}[x.cfg.fp], ds, x.paths, x.ended, x.aborted, comp, r.d.Seconds()))
		for _, s := range x.samples {
			if len(samples) < 6 {
				samples = append(samples, r.spec.name+": "+s)
			}
		}
		for _, n := range x.sortedNotes() {
			notes = append(notes, r.spec.name+": "+n)
		}
		for m, n := range x.unconf {
			notes = append(notes, fmt.Sprintf("%s: candidate not reproduced on the real code (%d): %s", r.spec.name, n, m))
		}
	}
	keys := func(m map[string]bool) []string {
		var o []string
		for k := range m {
			o = append(o, k)
		}
		sort.Strings(o)
		return o
	}
	if samples == nil {
		samples = []string{}
	}
	if bounds == nil {
		bounds = []string{}
	}
	ev := map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states":                          tot.branches + tot.paths + tot.ended + tot.trans,
			"transitions":                     tot.steps,
			"traces_validated_against_impl":   rp.validated,
			"samples":                         samples,
			"exhaustive":                      exhaustive,
			"state_meaning":                   "symbolic states: decision points, schedule points and path ends; transitions: SSA instructions executed symbolically",
			"harnesses_and_bounds":            bounds,
			"functions_encoded":               keys(fnTarget),
			"library_functions_encoded":       len(fnOther),
			"models_used_instead_of_code":     keys(stubs),
			"paths_completed":                 tot.paths,
			"paths_infeasible_or_pruned":      tot.ended,
			"paths_aborted":                   tot.aborted,
			"assertions_discharged_by_solver": tot.disch,
			"assertions_trivially_true":       tot.triv,
			"assertions_undecided":            tot.undec,
			"undecided_branches":              tot.unkBr,
			"schedule_transitions":            tot.trans,
			"states_merged":                   tot.dedup,
			"solver_queries":                  atomic.LoadInt64(&gstats.queries),
			"solver_sat":                      gstats.sat,
			"solver_unsat":                    gstats.unsat,
			"solver_unknown":                  gstats.unknown,
			"solver_cache_hits":               gstats.cacheHits,
			"solver_time_s":                   float64(gstats.solverNs) / 1e9,
			"native_replays":                  rp.runs,
			"trace_mismatches":                rp.mismatches,
			"notes":                           notes,
			"load_s":                          loadT.Seconds(),
		},
		"assumptions": assumptions,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(violations),
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	eb, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", *prop+".json"), append(eb, '\n'), 0o644); err != nil {
		fatalf("%v", err)
	}
	for _, v := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", v.prop, v.harness, v.msg)
	}
	for i, v := range violations {
		dir := filepath.Join(verifDir, "work", "replays")
		os.MkdirAll(dir, 0o755)
		f := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.replay", v.prop, v.harness, i))
		var sb strings.Builder
		fmt.Fprintf(&sb, "# property %s\n# harness %s\n# kind %s\n# violated: %s\n# real code says: %s\n", v.prop, v.harness, v.kind, v.msg, strings.ReplaceAll(v.output, "\n", "\n#   "))
		fmt.Fprintf(&sb, "# re-run: cd /verif && bin/gosym -replay %s\n", f)
		for _, s := range v.sched {
			fmt.Fprintf(&sb, "# schedule: %s\n", s)
		}
		it := 1
		if len(v.sched) > 0 || v.kind == "race" || v.kind == "must" {
			it = 400
		}
		sb.WriteString(traceText(v.harness, it, 5000, v.inputs))
		os.WriteFile(f, []byte(sb.String()), 0o644)
		fmt.Printf("violated: %s: %s\n  inputs: %s\n  real code: %s\n", v.harness, v.msg, strings.Join(v.inputs, ", "), v.output)
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.prop, f)
	}
	fmt.Printf("%s %s: %d harnesses, %d paths, %d queries, %d validated traces, %.1fs\n", *prop, *tier, len(results), tot.paths, gstats.queries, rp.validated, time.Since(t0).Seconds())
	cleanup()
	pprof.StopCPUProfile()
	if len(violations) > 0 {
		os.Exit(1)
	}
}

// stubFits: the replaced function is absent (nothing to replace) or takes and returns the same types
func (e *Engine) stubFits(target string, f *ssa.Function) bool {
	if !strings.HasPrefix(target, targetPkg+".") {
		return true
	}
	tp := e.prog.ImportedPackage(targetPkg)
	if tp == nil {
		return true
	}
	t := tp.Func(strings.TrimPrefix(target, targetPkg+"."))
	if t == nil {
		return true
	}
	same := func(a, b *types.Tuple) bool {
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if x, y := a.At(i).Type(), b.At(i).Type(); !types.Identical(x, y) && !(e.targetPath != targetPkg && types.Identical(x.Underlying(), y.Underlying())) {
				return false
			}
		}
		return true
	}
	return same(t.Signature.Params(), f.Signature.Params()) && same(t.Signature.Results(), f.Signature.Results()) && t.Signature.Variadic() == f.Signature.Variadic()
}

// prune blanks the declarations of the harness files that do not compile
func prune(err error, repo, dir string, overlay map[string][]byte, hs map[string]string) (int, []string) {
	re := regexp.MustCompile(`(?m)^(\S*zz_verif_[^:]+):(\d+):`)
	lines := map[string]map[int]bool{}
	for _, m := range re.FindAllStringSubmatch(err.Error(), -1) {
		n, _ := strconv.Atoi(m[2])
		b := filepath.Base(m[1])
		if lines[b] == nil {
			lines[b] = map[int]bool{}
		}
		lines[b][n] = true
	}
	cnt := 0
	var cut []string
	for b, ls := range lines {
		key := filepath.Join(repo, dir, b)
		src := overlay[key]
		if src == nil {
			continue
		}
		fset := token.NewFileSet()
		f, perr := parser.ParseFile(fset, b, src, parser.ParseComments)
		if perr != nil {
			return 0, nil
		}
		out := append([]byte(nil), src...)
		for _, d := range f.Decls {
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
				continue
			}
			hit := false
			for l := range ls {
				if l >= fset.Position(d.Pos()).Line && l <= fset.Position(d.End()).Line {
					hit = true
				}
			}
			if !hit {
				continue
			}
			nm := "declaration"
			if fd, ok := d.(*ast.FuncDecl); ok {
				nm = fd.Name.Name
			}
			cut = append(cut, nm)
			for o := fset.Position(d.Pos()).Offset; o < fset.Position(d.End()).Offset; o++ {
				if out[o] != '\n' {
					out[o] = ' '
				}
			}
			cnt++
		}
		// imports used only by what was cut
		for _, im := range f.Imports {
			if ls[fset.Position(im.Pos()).Line] {
				o := fset.Position(im.Pos()).Offset
				if im.Name == nil {
					out = append(out[:o:o], append([]byte("_ "), out[o:]...)...)
					cnt++
				}
				break
			}
		}
		overlay[key] = out
		hs[strings.TrimPrefix(b, "zz_verif_")] = string(out)
	}
	return cnt, cut
}

var assumptions = []string{
	"real mode: float64 arithmetic is treated as exact real arithmetic (rounding is outside the claim); fp mode: IEEE-754 double",
	"LAPACK Dgesvd, BLAS kernels, math functions, encoding/json, fmt, math/rand and sync are replaced by models (listed under models_used_instead_of_code)",
	"results hold within the stated sizes, ranges and schedule bounds only",
	"the SSA builder of golang.org/x/tools, the engine and z3/cvc5 are trusted; every reported violation is reproduced on the compiled code first",
}

const targetPkg = "github.com/davidkleiven/goselect/featselect"
const cmdPkg = "github.com/davidkleiven/goselect/cmd"

// the programs of their own under cmdDepreciated are put together in one package that exists in overlays only
const progDir = "zzvprogs"
const progPkg = "github.com/davidkleiven/goselect/" + progDir

// programs gives their sources with names that cannot clash: f of goselect-x becomes x_f
func programs(repo string) map[string]string {
	res := map[string]string{}
	dirs, _ := filepath.Glob(filepath.Join(repo, "cmdDepreciated", "*"))
	for _, d := range dirs {
		name := regexp.MustCompile(`\W`).ReplaceAllString(strings.TrimPrefix(filepath.Base(d), "goselect-"), "_")
		files, _ := filepath.Glob(filepath.Join(d, "*.go"))
		fset := token.NewFileSet()
		asts := map[string]*ast.File{}
		srcs := map[string][]byte{}
		top := map[string]bool{}
		for _, f := range files {
			src, err := os.ReadFile(f)
			if err != nil || strings.HasSuffix(f, "_test.go") {
				continue
			}
			a, err := parser.ParseFile(fset, f, src, parser.ParseComments)
			if err != nil {
				continue
			}
			asts[f], srcs[f] = a, src
			for n, o := range a.Scope.Objects {
				if o.Kind != ast.Bad && n != "_" && n != "init" {
					top[n] = true
				}
			}
		}
		for f, a := range asts {
			ids := []*ast.Ident{}
			for _, u := range a.Unresolved {
				if top[u.Name] {
					ids = append(ids, u)
				}
			}
			ast.Inspect(a, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok && id.Obj != nil && a.Scope.Objects[id.Name] == id.Obj {
					ids = append(ids, id)
				}
				return true
			})
			sort.Slice(ids, func(i, j int) bool { return ids[i].Pos() > ids[j].Pos() })
			out := append([]byte(nil), srcs[f]...)
			last := token.NoPos
			for _, id := range ids {
				if id.Pos() == last {
					continue
				}
				last = id.Pos()
				o := fset.Position(id.Pos()).Offset
				out = append(out[:o:o], append([]byte(name+"_"), out[o:]...)...)
			}
			o := fset.Position(a.Name.Pos()).Offset
			out = append(out[:o:o], append([]byte(progDir), out[o+len(a.Name.Name):]...)...)
			res["prog_"+name+"_"+filepath.Base(f)] = string(out)
		}
	}
	return res
}
