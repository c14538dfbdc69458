package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

func (r SatRes) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type Stats struct {
	queries, sat, unsat, unknown, cacheHits, modelHits, cvc5 int64
	solverNs                                                 int64
	maxNs                                                    int64
}

var gstats Stats

type cacheEnt struct {
	res   SatRes
	model *rawModel
}

// rawModel maps printed names to values
type rawModel struct {
	bv   map[string]uint64
	real map[string]*big.Rat
	inex map[string]float64
}

var (
	qcacheMu sync.Mutex
	qcache   = map[string]cacheEnt{}
)

type Solver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	bin   string
	lines chan string
	dead  bool
}

func z3bin() string {
	if p, err := exec.LookPath("z3-new"); err == nil {
		return p
	}
	return "z3"
}

func (s *Solver) start() {
	s.bin = z3bin()
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		fatalf("cannot start solver: %v", err)
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.lines = make(chan string, 1024)
	rd, ch := s.out, s.lines
	go func() {
		defer close(ch)
		for {
			l, err := rd.ReadString('\n')
			if l != "" {
				ch <- strings.TrimRight(l, "\n")
			}
			if err != nil {
				return
			}
		}
	}()
	s.dead = false
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(txt string) { io.WriteString(s.in, txt) }

// readUntil reads lines until the echo marker; ok=false on timeout or death
func (s *Solver) readUntil(marker string, d time.Duration) ([]string, bool) {
	var out []string
	tm := time.NewTimer(d)
	defer tm.Stop()
	for {
		select {
		case l, ok := <-s.lines:
			if !ok {
				return out, false
			}
			if l == marker || l == "\""+marker+"\"" {
				return out, true
			}
			out = append(out, l)
		case <-tm.C:
			return out, false
		}
	}
}

var queryTimeoutMs int64 = 5000
var dumpSlow = os.Getenv("GOSYM_DUMPSLOW") != ""

// check runs one query (text without check-sat), names = values wanted
func (s *Solver) check(text string, names []string, timeoutMs int64) (SatRes, *rawModel) {
	qcacheMu.Lock()
	if e, ok := qcache[text]; ok {
		qcacheMu.Unlock()
		atomic.AddInt64(&gstats.cacheHits, 1)
		return e.res, e.model
	}
	qcacheMu.Unlock()
	t0 := time.Now()
	res, m := s.run(text, names, timeoutMs)
	if res == Unknown {
		r2 := runCvc5(text, timeoutMs)
		atomic.AddInt64(&gstats.cvc5, 1)
		if r2 == Unsat {
			res = Unsat
		} else if r2 == Sat && m == nil {
			res = Unknown // no model available: stay inconclusive
		}
	}
	el := int64(time.Since(t0))
	atomic.AddInt64(&gstats.queries, 1)
	atomic.AddInt64(&gstats.solverNs, el)
	for {
		o := atomic.LoadInt64(&gstats.maxNs)
		if el <= o || atomic.CompareAndSwapInt64(&gstats.maxNs, o, el) {
			break
		}
	}
	switch res {
	case Sat:
		atomic.AddInt64(&gstats.sat, 1)
	case Unsat:
		atomic.AddInt64(&gstats.unsat, 1)
	default:
		atomic.AddInt64(&gstats.unknown, 1)
	}
	if dumpSlow && (el > int64(time.Second) || res == Unknown) {
		fmt.Fprintf(os.Stderr, ";; slow query %v %s\n%s\n", time.Duration(el), res, text)
	}
	qcacheMu.Lock()
	if len(qcache) < 400000 {
		qcache[text] = cacheEnt{res, m}
	}
	qcacheMu.Unlock()
	return res, m
}

func (s *Solver) run(text string, names []string, timeoutMs int64) (SatRes, *rawModel) {
	if s.cmd == nil || s.dead {
		s.stop()
		s.start()
	}
	s.send("(reset)\n(set-option :timeout " + strconv.FormatInt(timeoutMs, 10) + ")\n(set-option :produce-models true)\n" + text + "(check-sat)\n(echo \"@@\")\n")
	lines, ok := s.readUntil("@@", time.Duration(timeoutMs)*time.Millisecond*2+5*time.Second)
	if !ok {
		s.dead = true
		return Unknown, nil
	}
	res := Unknown
	for _, l := range lines {
		switch {
		case strings.HasPrefix(l, "(error"):
			fmt.Fprintf(os.Stderr, "solver error: %s\n%s\n", l, text)
			atomic.AddInt64(&solverErrors, 1)
			return Unknown, nil
		case l == "sat":
			res = Sat
		case l == "unsat":
			res = Unsat
		}
	}
	if res != Sat || len(names) == 0 {
		return res, nil
	}
	s.send("(get-value (" + strings.Join(names, " ") + "))\n(echo \"@@\")\n")
	lines, ok = s.readUntil("@@", 10*time.Second)
	if !ok {
		s.dead = true
		return Unknown, nil
	}
	txt := strings.Join(lines, " ")
	m := &rawModel{map[string]uint64{}, map[string]*big.Rat{}, map[string]float64{}}
	need := parseModel(txt, m)
	if need {
		s.send("(set-option :pp.decimal true)\n(get-value (" + strings.Join(names, " ") + "))\n(set-option :pp.decimal false)\n(echo \"@@\")\n")
		lines, ok = s.readUntil("@@", 10*time.Second)
		if !ok {
			s.dead = true
			return Unknown, nil
		}
		parseModelInexact(strings.Join(lines, " "), m)
	}
	return Sat, m
}

var solverErrors int64

func runCvc5(text string, timeoutMs int64) SatRes {
	p, err := exec.LookPath("cvc5")
	if err != nil {
		return Unknown
	}
	c := exec.Command(p, "--lang=smt2", fmt.Sprintf("--tlimit=%d", timeoutMs), "-")
	if !strings.Contains(text, "(set-logic") {
		text = "(set-logic ALL)\n" + text
	}
	c.Stdin = strings.NewReader(text + "(check-sat)\n")
	out, _ := c.Output()
	o := string(out)
	if strings.Contains(o, "(error") {
		return Unknown
	}
	switch strings.TrimSpace(o) {
	case "sat":
		return Sat
	case "unsat":
		return Unsat
	}
	return Unknown
}

// ---- s-expressions ----

type sexp struct {
	atom string
	list []*sexp
}

func parseSexp(s string) *sexp {
	pos := 0
	var parse func() *sexp
	parse = func() *sexp {
		for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n' || s[pos] == '\t') {
			pos++
		}
		if pos >= len(s) {
			return nil
		}
		if s[pos] == '(' {
			pos++
			x := &sexp{list: []*sexp{}}
			for {
				for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n' || s[pos] == '\t') {
					pos++
				}
				if pos >= len(s) {
					return x
				}
				if s[pos] == ')' {
					pos++
					return x
				}
				x.list = append(x.list, parse())
			}
		}
		st := pos
		for pos < len(s) && s[pos] != ' ' && s[pos] != '(' && s[pos] != ')' && s[pos] != '\n' {
			pos++
		}
		if pos == st {
			pos++
		}
		return &sexp{atom: s[st:pos]}
	}
	return parse()
}

func sexpRat(x *sexp) *big.Rat {
	if x.list == nil {
		if strings.HasSuffix(x.atom, "?") {
			return nil
		}
		r, ok := new(big.Rat).SetString(x.atom)
		if !ok {
			return nil
		}
		return r
	}
	if len(x.list) == 2 && x.list[0].atom == "-" {
		r := sexpRat(x.list[1])
		if r == nil {
			return nil
		}
		return new(big.Rat).Neg(r)
	}
	if len(x.list) == 3 && x.list[0].atom == "/" {
		a, b := sexpRat(x.list[1]), sexpRat(x.list[2])
		if a == nil || b == nil || b.Sign() == 0 {
			return nil
		}
		return new(big.Rat).Quo(a, b)
	}
	return nil
}

func sexpFloat(x *sexp) (float64, bool) {
	if x.list == nil {
		f, err := strconv.ParseFloat(strings.TrimSuffix(x.atom, "?"), 64)
		return f, err == nil
	}
	if len(x.list) == 2 && x.list[0].atom == "-" {
		f, ok := sexpFloat(x.list[1])
		return -f, ok
	}
	if len(x.list) == 3 && x.list[0].atom == "/" {
		a, ok1 := sexpFloat(x.list[1])
		b, ok2 := sexpFloat(x.list[2])
		return a / b, ok1 && ok2
	}
	return 0, false
}

// parseModel fills m and reports whether some real values are irrational
func parseModel(txt string, m *rawModel) bool {
	x := parseSexp(txt)
	need := false
	if x == nil {
		return false
	}
	for _, e := range x.list {
		if len(e.list) != 2 {
			continue
		}
		n := e.list[0].atom
		v := e.list[1]
		switch {
		case strings.HasPrefix(n, "a"):
			r := sexpRat(v)
			if r == nil {
				need = true
			} else {
				m.real[n] = r
			}
		default:
			a := v.atom
			switch {
			case a == "true":
				m.bv[n] = 1
			case a == "false":
				m.bv[n] = 0
			case strings.HasPrefix(a, "#x"):
				u, _ := strconv.ParseUint(a[2:], 16, 64)
				m.bv[n] = u
			case strings.HasPrefix(a, "#b"):
				u, _ := strconv.ParseUint(a[2:], 2, 64)
				m.bv[n] = u
			case len(v.list) == 3 && v.list[0].atom == "_" && strings.HasPrefix(v.list[1].atom, "bv"):
				u, _ := strconv.ParseUint(v.list[1].atom[2:], 10, 64)
				m.bv[n] = u
			}
		}
	}
	return need
}

func parseModelInexact(txt string, m *rawModel) {
	x := parseSexp(txt)
	if x == nil {
		return
	}
	for _, e := range x.list {
		if len(e.list) != 2 {
			continue
		}
		n := e.list[0].atom
		if _, ok := m.real[n]; ok || !strings.HasPrefix(n, "a") {
			continue
		}
		if f, ok := sexpFloat(e.list[1]); ok {
			m.inex[n] = f
		}
	}
}
