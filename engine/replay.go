package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func buildEnv(cgo bool) []string {
	var out []string
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "CGO_ENABLED", "GO111MODULE":
			continue
		}
		out = append(out, kv)
	}
	c := "0"
	if cgo {
		c = "1"
	}
	out = append(out, "GOFLAGS=-mod=mod -modfile="+modCopy, "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED="+c, "GOSUMDB=off")
	if os.Getenv("HOME") == "" {
		out = append(out, "HOME=/root")
	}
	return out
}

var modCopy string

// Replayer builds the real package with the harnesses and runs recorded inputs
type Replayer struct {
	pkgDir     string
	repo, dir  string
	harness    map[string]string // file name -> contents (without package test glue)
	names      []string
	mu         sync.Mutex
	bin, rbin  string
	err, rerr  error
	built, rb  bool
	seq        int
	runs       int
	validated  int
	mismatches []string
	tier       int
	stubs      map[string][][2]string // function -> (harness, replacement)
	fitting    []fitStub
}

type fitStub struct {
	fn   string
	keep [][2]string
}

// rebuild compiles again after harnesses or replacements were left out
func (r *Replayer) rebuild(names []string) {
	r.mu.Lock()
	r.names = names
	for _, f := range r.fitting {
		r.stubs[f.fn] = f.keep
	}
	r.built, r.rb = false, false
	r.mu.Unlock()
	go r.build(false)
}

func (r *Replayer) overlay() (string, error) {
	rep := map[string]string{}
	pk := filepath.Join(r.repo, r.pkgDir)
	put := func(virtual, content string) error {
		f := filepath.Join(r.dir, "ov", strings.ReplaceAll(strings.TrimPrefix(virtual, r.repo), "/", "_"))
		if err := os.WriteFile(f, []byte(content), 0o644); err != nil {
			return err
		}
		rep[virtual] = f
		return nil
	}
	if err := os.MkdirAll(filepath.Join(r.dir, "ov"), 0o755); err != nil {
		return "", err
	}
	for n, c := range r.harness {
		if err := put(filepath.Join(pk, "zz_verif_"+strings.TrimSuffix(n, ".go")+"_test.go"), c); err != nil {
			return "", err
		}
	}
	main, err := os.ReadFile(filepath.Join(verifDir, "harness/native/main.go.txt"))
	if err != nil {
		return "", err
	}
	var sb strings.Builder
	main = bytes.Replace(main, []byte("package featselect"), []byte("package "+r.pkgDir), 1)
	sb.Write(main)
	if r.pkgDir != "featselect" {
		sb.WriteString("\nfunc init() {\n")
		for f, l := range r.stubs {
			for _, st := range l {
				fmt.Fprintf(&sb, "\tzzv.SetHook(%q, %q, %s)\n", st[0], f, st[1])
			}
		}
		sb.WriteString("}\n")
	}
	sb.WriteString("\nvar verifHarnesses = map[string]func(){\n")
	for _, n := range r.names {
		fmt.Fprintf(&sb, "\t%q: %s,\n", n, n)
	}
	sb.WriteString("}\n")
	if err := put(filepath.Join(pk, "zz_verif_main_test.go"), sb.String()); err != nil {
		return "", err
	}
	rnd, err := os.ReadFile(filepath.Join(verifDir, "harness/native/zzvrand.go.txt"))
	if err != nil {
		return "", err
	}
	if err := put(filepath.Join(r.repo, "featselect", "zzvrand/zzvrand.go"), string(rnd)); err != nil {
		return "", err
	}
	files, _ := filepath.Glob(filepath.Join(r.repo, "featselect", "*.go"))
	if r.pkgDir != "featselect" {
		more, _ := filepath.Glob(filepath.Join(pk, "*.go"))
		files = append(files, more...)
	}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return "", err
		}
		if ns, changed := instrument(src, r.stubs, r.pkgDir != "featselect"); changed {
			if err := put(f, ns); err != nil {
				return "", err
			}
		}
	}
	if r.pkgDir == progDir {
		for n, src := range programs(r.repo) {
			if ns, changed := instrument([]byte(src), r.stubs, true); changed {
				src = ns
			}
			if err := put(filepath.Join(pk, n), src); err != nil {
				return "", err
			}
		}
	}
	js, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	of := filepath.Join(r.dir, "overlay.json")
	return of, os.WriteFile(of, js, 0o644)
}

// instrument replaces math/rand and inserts schedule perturbation before channel operations
func instrument(src []byte, stubs map[string][][2]string, hooks bool) (string, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return "", false
	}
	type ins struct {
		off int
		del int
		txt string
	}
	var edits []ins
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	for _, im := range f.Imports {
		if im.Path.Value == `"math/rand"` {
			t := `"github.com/davidkleiven/goselect/featselect/zzvrand"`
			if im.Name == nil {
				t = "rand " + t
			}
			edits = append(edits, ins{off(im.Path.Pos()), len(im.Path.Value), t})
		}
	}
	yields := false
	tail := ""
	hasChan := func(s ast.Stmt) bool {
		found := false
		switch x := s.(type) {
		case *ast.SendStmt, *ast.SelectStmt:
			return true
		case *ast.ExprStmt:
			if c, ok := x.X.(*ast.CallExpr); ok {
				if se, ok := c.Fun.(*ast.SelectorExpr); ok && (se.Sel.Name == "Lock" || se.Sel.Name == "RLock" || se.Sel.Name == "Wait") {
					return true
				}
			}
			ast.Inspect(s, func(n ast.Node) bool {
				if u, ok := n.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					found = true
				}
				_, lit := n.(*ast.FuncLit)
				return !lit
			})
		case *ast.AssignStmt, *ast.DeclStmt, *ast.ReturnStmt:
			ast.Inspect(s, func(n ast.Node) bool {
				if u, ok := n.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					found = true
				}
				_, lit := n.(*ast.FuncLit)
				return !lit
			})
		}
		return found
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if hasChan(s) {
				edits = append(edits, ins{off(s.Pos()), 0, "zzv.Yield(); "})
				yields = true
			}
		}
	}
	if len(stubs["time.Tick"]) > 0 {
		ast.Inspect(f, func(n ast.Node) bool {
			if se, ok := n.(*ast.SelectorExpr); ok && se.Sel.Name == "Tick" {
				if x, ok := se.X.(*ast.Ident); ok && x.Name == "time" && x.Obj == nil {
					edits = append(edits, ins{off(x.Pos()), 4, "zzv"})
					yields = true
				}
			}
			return true
		})
	}
	if len(stubs["plot.Save"]) > 0 {
		ast.Inspect(f, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok && len(c.Args) == 3 {
				if se, ok := c.Fun.(*ast.SelectorExpr); ok && se.Sel.Name == "Save" {
					edits = append(edits, ins{off(c.Pos()), 0, "zzv.Save("}, ins{off(se.X.End()), off(c.Lparen) + 1 - off(se.X.End()), ", "})
					yields = true
				}
			}
			return true
		})
	}
	if hooks { // operations on files go through stand-ins that can act out the death of the process
		uses := map[string]int{}
		var calls []*ast.Ident
		fileOps := map[string]bool{"WriteFile": true, "Create": true, "OpenFile": true, "TempFile": true, "CreateTemp": true, "Remove": true, "Rename": true}
		ast.Inspect(f, func(n ast.Node) bool {
			if se, ok := n.(*ast.SelectorExpr); ok {
				if x, ok := se.X.(*ast.Ident); ok && (x.Name == "os" || x.Name == "ioutil") && x.Obj == nil {
					uses[x.Name]++
					if fileOps[se.Sel.Name] {
						calls = append(calls, x)
					}
				}
			}
			return true
		})
		for _, x := range calls {
			edits = append(edits, ins{off(x.Pos()), len(x.Name), "zzv"})
			uses[x.Name]--
			yields = true
		}
		for n, c := range uses {
			if c == 0 { // keep the import in use
				tail += map[string]string{"os": "\nvar _ = os.Args\n", "ioutil": "\nvar _ = ioutil.Discard\n"}[n]
			}
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Recv != nil || fd.Body == nil || len(stubs[fd.Name.Name]) == 0 {
			continue
		}
		var ps []string
		for _, fl := range fd.Type.Params.List {
			for _, n := range fl.Names {
				ps = append(ps, n.Name)
			}
			if len(fl.Names) == 0 {
				ps = append(ps, "_")
			}
		}
		skip := false
		for _, n := range ps {
			skip = skip || n == "_"
		}
		if skip {
			continue
		}
		for _, st := range stubs[fd.Name.Name] {
			call := st[1] + "(" + strings.Join(ps, ", ") + ")"
			if hooks { // the replacement lives in another package
				call = fmt.Sprintf("zzv.Call(%s)", strings.Join(append([]string{strconv.Quote(st[0]), strconv.Quote(fd.Name.Name)}, ps...), ", "))
				if r := fd.Type.Results; r != nil {
					if len(r.List) != 1 || len(r.List[0].Names) > 1 {
						continue
					}
					t := r.List[0].Type
					call += fmt.Sprintf("[0].Interface().(%s)", src[off(t.Pos()):off(t.End())])
				}
			}
			if fd.Type.Results == nil {
				call += "; return"
			} else {
				call = "return " + call
			}
			edits = append(edits, ins{off(fd.Body.Lbrace) + 1, 0, fmt.Sprintf(" if zzv.Is(%q) { %s };", st[0], call)})
			yields = true
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return true
	})
	if len(edits) == 0 {
		return "", false
	}
	if yields {
		edits = append(edits, ins{off(f.Name.End()), 0, `; import zzv "github.com/davidkleiven/goselect/featselect/zzvrand"`})
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off > edits[j].off })
	out := append([]byte(nil), src...)
	for _, e := range edits {
		out = append(out[:e.off:e.off], append([]byte(e.txt), out[e.off+e.del:]...)...)
	}
	return string(out) + tail, true
}

func (r *Replayer) build(race bool) (string, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if race && r.rb {
		return r.rbin, r.rerr
	}
	if !race && r.built {
		return r.bin, r.err
	}
	ov, err := r.overlay()
	out := filepath.Join(r.dir, "replay.test")
	if race {
		out = filepath.Join(r.dir, "replay-race.test")
	}
	if err == nil {
		args := []string{"test", "-c", "-vet=off", "-overlay", ov, "-o", out}
		if race {
			args = append(args, "-race")
		}
		args = append(args, "./"+r.pkgDir)
		c := exec.Command("go", args...)
		c.Dir = r.repo
		c.Env = buildEnv(race)
		if b, e := c.CombinedOutput(); e != nil {
			err = fmt.Errorf("%v: %s", e, b)
		}
	}
	if race {
		r.rb, r.rbin, r.rerr = true, out, err
	} else {
		r.built, r.bin, r.err = true, out, err
	}
	return out, err
}

type replayResult struct {
	obs    []string
	hits   map[string]bool
	status string
}

func traceText(name string, iters, tmo int, ins []string) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "TRACE %s %d %d\n", name, iters, tmo)
	for _, i := range ins {
		fmt.Fprintf(&sb, "IN %s\n", i)
	}
	sb.WriteString("END\n")
	return sb.String()
}

// runFile runs a replay file; results per trace and the raw output
func (r *Replayer) runFile(race bool, text string, limit time.Duration) ([]replayResult, string, error) {
	bin, err := r.build(race)
	if err != nil {
		return nil, "", err
	}
	r.mu.Lock()
	r.seq++
	id := r.seq
	r.runs++
	r.mu.Unlock()
	in := filepath.Join(r.dir, fmt.Sprintf("r%d.in", id))
	out := filepath.Join(r.dir, fmt.Sprintf("r%d.out", id))
	if err := os.WriteFile(in, []byte(fmt.Sprintf("TIER %d\n", r.tier)+text), 0o644); err != nil {
		return nil, "", err
	}
	defer os.Remove(in)
	defer os.Remove(out)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := exec.CommandContext(ctx, bin, "-test.run", "^TestVerifReplay$", "-test.timeout", "0")
	c.Dir = r.dir
	c.Env = append(os.Environ(), "VERIF_REPLAY="+in, "VERIF_OUT="+out, "GORACE=halt_on_error=1")
	var buf bytes.Buffer
	c.Stdout = &limitWriter{b: &buf, n: 1 << 18}
	c.Stderr = c.Stdout
	c.WaitDelay = time.Second
	rerr := c.Run()
	b, _ := os.ReadFile(out)
	var res []replayResult
	for _, l := range strings.Split(string(b), "\n") {
		switch {
		case strings.HasPrefix(l, "TRACE "):
			res = append(res, replayResult{})
		case len(res) == 0 || l == "":
		case strings.HasPrefix(l, "HIT "):
			h := &res[len(res)-1]
			if h.hits == nil {
				h.hits = map[string]bool{}
			}
			h.hits[l[4:]] = true
		case strings.HasPrefix(l, "OBS "):
			res[len(res)-1].obs = append(res[len(res)-1].obs, l[4:])
		default:
			res[len(res)-1].status = l
		}
	}
	raw := buf.String()
	if ctx.Err() != nil {
		raw += "\n(time limit)"
	}
	return res, raw, rerr
}

type limitWriter struct {
	b *bytes.Buffer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	} else if l.b.Len() < 2*l.n {
		l.b.Write(p) // keep the tail of crashes too
	}
	return len(p), nil
}

// confirm replays a candidate on the real code; nil if it does not reproduce
func (r *Replayer) confirm(x *Explorer, kind, msg string, ins, sched []string) *Violation {
	iters, tmo := 1, 20000
	multi := len(sched) > 0
	if multi {
		iters = 400
	}
	limit := 40 * time.Second
	if kind == "deadlock" || kind == "steps" {
		tmo = 4000
	}
	race := kind == "race"
	if race {
		iters = 150
		limit = 60 * time.Second
	}
	v := &Violation{prop: x.prop, harness: x.harness, kind: kind, msg: msg, inputs: ins}
	res, raw, err := r.runFile(race, traceText(x.harness, iters, tmo, ins), limit)
	if res == nil && err != nil && raw == "" {
		x.noteMsg("replay failed to run: " + err.Error())
		return nil
	}
	status := ""
	if len(res) > 0 {
		status = res[0].status
	}
	crashed := status == "" && (strings.Contains(raw, "panic:") || strings.Contains(raw, "fatal error:"))
	v.output = status
	if race {
		if strings.Contains(raw, "DATA RACE") {
			i := strings.Index(raw, "WARNING: DATA RACE")
			t := raw[i:]
			if len(t) > 1500 {
				t = t[:1500]
			}
			v.output = t
			return v
		}
		return nil
	}
	switch kind {
	case "assert", "panic":
		if strings.HasPrefix(status, "VFAIL") || strings.HasPrefix(status, "PANIC") {
			return v
		}
		if crashed {
			i := strings.Index(raw, "panic:")
			if i < 0 {
				i = strings.Index(raw, "fatal error:")
			}
			t := raw[i:]
			if len(t) > 400 {
				t = t[:400]
			}
			v.output = t
			return v
		}
		if multi && status == "HANG" {
			return v
		}
	case "deadlock", "steps":
		if status == "HANG" || strings.HasPrefix(status, "VFAIL") || strings.HasPrefix(status, "PANIC") || crashed {
			return v
		}
	}
	if os.Getenv("GOSYM_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "unconfirmed %s %q: status %q inputs %v\n%s\n", kind, msg, status, ins, tail(raw, 600))
	}
	return nil
}

// confirmMust: no path reaches a place that must be reachable. The real code runs with the recorded harness inputs and
// many random choices of its own; nil if it gets there or nothing could be run.
func (r *Replayer) confirmMust(x *Explorer, label string) *Violation {
	var sb strings.Builder
	n := 0
	seen := map[string]bool{}
	for _, t := range x.traces {
		var ins []string
		for _, i := range t.inputs {
			if k := strings.Fields(i)[0]; k != "rint" && k != "rfloat" && k != "rnorm" {
				ins = append(ins, i)
			}
		}
		k := strings.Join(ins, "\n")
		if seen[k] {
			continue
		}
		seen[k] = true
		sb.WriteString(traceText(x.harness, 200, 20000, ins))
		n++
	}
	if n == 0 {
		return nil
	}
	res, _, _ := r.runFile(false, sb.String(), 60*time.Second)
	if len(res) < n {
		return nil
	}
	for _, rr := range res {
		if rr.hits[label] || rr.status != "DONE" && rr.status != "SKIP" {
			return nil
		}
	}
	return &Violation{prop: x.prop, harness: x.harness, kind: "must", msg: "can happen: " + label, inputs: x.traces[0].inputs,
		output: fmt.Sprintf("not reached on any path, nor in %d runs with random choices", 200*n)}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// validate replays sampled traces and compares predicted and actual observations
func (r *Replayer) validate(x *Explorer) {
	ts := x.traces
	max := 24
	if len(ts) > max {
		// spread over the recorded ones
		var pick []*Trace
		for i := 0; i < max; i++ {
			pick = append(pick, ts[i*len(ts)/max])
		}
		ts = pick
	}
	if len(ts) == 0 {
		return
	}
	var sb strings.Builder
	for _, t := range ts {
		sb.WriteString(traceText(x.harness, 1, 20000, t.inputs))
	}
	res, raw, err := r.runFile(false, sb.String(), 60*time.Second)
	if len(res) < len(ts) {
		x.noteMsg(fmt.Sprintf("trace validation incomplete: %d of %d (%v) %s", len(res), len(ts), err, tail(raw, 300)))
	}
	for i, rr := range res {
		if i >= len(ts) {
			break
		}
		if rr.status == "DONE" && sameObs(ts[i].obs, rr.obs) {
			r.validated++
			continue
		}
		r.mismatches = append(r.mismatches, fmt.Sprintf("%s: inputs %v: predicted %v, real %s %v", x.harness, ts[i].inputs, ts[i].obs, rr.status, rr.obs))
	}
}

func sameObs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		fa, fb := strings.Fields(a[i]), strings.Fields(b[i])
		if len(fa) != len(fb) {
			return false
		}
		for j := range fa {
			if fa[j] == fb[j] {
				continue
			}
			x, e1 := strconv.ParseFloat(fa[j], 64)
			y, e2 := strconv.ParseFloat(fb[j], 64)
			if e1 != nil || e2 != nil {
				return false
			}
			if math.IsNaN(x) && math.IsNaN(y) {
				continue
			}
			if !(math.Abs(x-y) <= 1e-6*(1+math.Abs(x)+math.Abs(y))) {
				return false
			}
		}
	}
	return true
}
