package main

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// VC is a vector clock indexed by goroutine id
type VC []int32

func (a VC) get(i int) int32 {
	if i < len(a) {
		return a[i]
	}
	return 0
}

func vcJoin(a, b VC) VC {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	out := make(VC, n)
	copy(out, a)
	for i, v := range b {
		if v > out[i] {
			out[i] = v
		}
	}
	return out
}

func (a VC) tick(i int) VC {
	out := vcJoin(a, make(VC, i+1))
	out[i]++
	return out
}

type opKind uint8

const (
	opSelect opKind = iota
	opClose
	opLock
	opRLock
	opWait
	opStep // an always enabled visible step (atomics)
)

type selCase struct {
	send bool
	ch   *Chan
	v    Value
}

type pendingOp struct {
	kind       opKind
	cases      []selCase
	hasDefault bool
	chosen     int
	recvV      Value
	recvOK     bool
	ch         *Chan
	addr       *Value
	boom       bool // send on closed channel, close of closed channel
	boomMsg    string
}

// G is one goroutine of the program
type G struct {
	id           int
	depth        int
	top          *Frame
	nativeCaller *Frame
	resume       chan struct{}
	pending      *pendingOp
	done         bool
	vc           VC
	age          int
	name         string
}

type lockState struct {
	held    bool
	readers int
	vc      VC
	rvc     VC
	count   int64 // wait group
	done    bool  // once
}

type accessRec struct {
	g   int
	clk int32
	pos string
}

type cellState struct {
	w     accessRec
	hasW  bool
	reads []accessRec
}

// Sched runs the goroutines of one path
type Sched struct {
	p        *Path
	gs       []*G
	runnable []*G
	kill     chan struct{}
	wg       sync.WaitGroup
	fatal    interface{}
	locks    map[*Value]*lockState
	race     bool
	full     bool
	maxDelay int
	cells    map[interface{}]*cellState
	tick     int
	trans    int
	raceSeen map[string]bool
}

type killG struct{}
type crashPanic struct {
	v  Value
	at string
}
type deadlock struct{ desc string }
type nonTerm struct{}

func newSched(p *Path) *Sched {
	s := &Sched{p: p, kill: make(chan struct{}), locks: map[*Value]*lockState{}, raceSeen: map[string]bool{}}
	s.race = p.x.cfg.race
	s.full = p.x.cfg.delay < 0
	s.maxDelay = p.x.cfg.delay
	if s.race {
		s.cells = map[interface{}]*cellState{}
	}
	g := &G{id: 0, resume: make(chan struct{}), name: "main"}
	if s.race {
		g.vc = VC{1}
	}
	s.gs = append(s.gs, g)
	return s
}

func (s *Sched) lock(a *Value) *lockState {
	l := s.locks[a]
	if l == nil {
		l = &lockState{}
		s.locks[a] = l
	}
	return l
}

// spawn starts a goroutine; it runs up to its first visible operation once the current one stops
func (p *Path) spawn(g *G, fv Value, args []Value) {
	s := p.sched
	if s == nil {
		panic(abortPath{"go statement during initialisation"})
	}
	if len(s.gs) > 64 {
		panic(abortPath{"too many goroutines"})
	}
	n := &G{id: len(s.gs), resume: make(chan struct{})}
	switch f := fv.(type) {
	case *ssa.Function:
		n.name = f.Name()
	case *Closure:
		n.name = f.fn.Name()
	}
	if s.race {
		n.vc = vcJoin(g.vc, nil).tick(n.id)
		g.vc = g.vc.tick(g.id)
	}
	s.gs = append(s.gs, n)
	s.runnable = append(s.runnable, n)
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		select {
		case <-n.resume:
		case <-s.kill:
			return
		}
		killed := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(killG); ok {
						killed = true
						return
					}
					if tp, ok := r.(targetPanic); ok {
						r = crashPanic{tp.v, n.name}
					}
					s.fatal = r
				}
			}()
			p.callValue(n, nil, fv, args)
		}()
		if killed {
			return
		}
		n.done = true
		n.top = nil
		if s.fatal == nil {
			func() {
				defer func() {
					if r := recover(); r != nil {
						s.fatal = r
					}
				}()
				nx := s.next()
				s.handTo(nx)
			}()
		}
		if s.fatal != nil {
			s.handTo(s.gs[0])
		}
	}()
}

func (s *Sched) handTo(g *G) {
	select {
	case g.resume <- struct{}{}:
	case <-s.kill:
	}
}

// finish ends all goroutines
func (s *Sched) finish() {
	close(s.kill)
	s.wg.Wait()
}

// visible performs a synchronisation operation of g
func (p *Path) visible(g *G, op *pendingOp) {
	s := p.sched
	if s == nil {
		// package initialisation: single threaded
		return
	}
	g.pending = op
	s.tick++
	g.age = s.tick
	nx := s.next()
	if nx != g {
		s.handTo(nx)
		select {
		case <-g.resume:
		case <-s.kill:
			panic(killG{})
		}
		if s.fatal != nil {
			if g.id == 0 {
				panic(s.fatal)
			}
			panic(killG{})
		}
	}
	if op.boom {
		panic(targetPanic{iface{t: p.x.eng.runtimeErrT, v: op.boomMsg}})
	}
}

type transition struct {
	g, h   *G // g acts; h receives (rendezvous)
	gc, hc int
	def    bool
	age    int
}

// next returns the goroutine to run, executing transitions while all wait
func (s *Sched) next() *G {
	for {
		if len(s.runnable) > 0 {
			g := s.runnable[0]
			s.runnable = append([]*G(nil), s.runnable[1:]...)
			return g
		}
		ts := s.transitions()
		if len(ts) == 0 {
			panic(deadlock{s.describe()})
		}
		p := s.p
		k := 0
		if len(ts) > 1 {
			if s.full {
				if p.pos >= len(p.prefix) && !p.x.cfg.noDedupe {
					h := s.hashState()
					if !p.x.visit(h) {
						p.x.addDedupe()
						panic(endPath{})
					}
				}
				k = p.choose(len(ts))
			} else if p.delays < s.maxDelay {
				k = p.chooseDelay(len(ts))
			}
			if k > 0 {
				p.delays++
			}
		}
		s.exec(&ts[k])
	}
}

// chooseDelay picks the default or (spending a delay) any other transition
func (p *Path) chooseDelay(n int) int {
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.log = append(p.log, d)
		return int(d.c)
	}
	for i := n - 1; i >= 1; i-- {
		p.pushAlt(Dec{c: int32(i)}, p.model)
	}
	p.log = append(p.log, Dec{c: 0})
	p.pos++
	return 0
}

func (s *Sched) transitions() []transition {
	var ts []transition
	for _, g := range s.gs {
		if g.done || g.pending == nil {
			continue
		}
		op := g.pending
		switch op.kind {
		case opClose, opStep:
			ts = append(ts, transition{g: g, age: g.age})
		case opLock:
			l := s.lock(op.addr)
			if !l.held && l.readers == 0 {
				ts = append(ts, transition{g: g, age: g.age})
			}
		case opRLock:
			if l := s.lock(op.addr); !l.held {
				ts = append(ts, transition{g: g, age: g.age})
			}
		case opWait:
			if s.lock(op.addr).count <= 0 {
				ts = append(ts, transition{g: g, age: g.age})
			}
		case opSelect:
			sure := false
			for i, c := range op.cases {
				ch := c.ch
				if ch == nil || ch.never {
					continue
				}
				if c.send {
					switch {
					case ch.closed || len(ch.buf) < ch.cap:
						ts = append(ts, transition{g: g, gc: i, age: g.age})
						sure = true
					case ch.cap == 0:
						for _, h := range s.gs {
							if h == g || h.done || h.pending == nil || h.pending.kind != opSelect {
								continue
							}
							for j, d := range h.pending.cases {
								if d.ch == ch && !d.send {
									age := g.age
									if h.age > age {
										age = h.age
									}
									ts = append(ts, transition{g: g, gc: i, h: h, hc: j, age: age})
								}
							}
						}
					}
				} else if len(ch.buf) > 0 || ch.closed {
					ts = append(ts, transition{g: g, gc: i, age: g.age})
					sure = true
				}
			}
			if op.hasDefault && !sure {
				ts = append(ts, transition{g: g, def: true, age: g.age})
			}
		}
	}
	sort.SliceStable(ts, func(i, j int) bool { return ts[i].age < ts[j].age })
	if len(ts) > 1 {
		ts = s.symmetric(ts)
	}
	return ts
}

// symmetric keeps one of several transitions whose participants are in identical states
func (s *Sched) symmetric(ts []transition) []transition {
	keys := map[*G]string{}
	key := func(g *G) string {
		if g == nil {
			return "-"
		}
		if k, ok := keys[g]; ok {
			return k
		}
		k := s.localKey(g)
		keys[g] = k
		return k
	}
	seen := map[string]bool{}
	var out []transition
	for _, t := range ts {
		k := fmt.Sprintf("%s|%d|%v|%s|%d", key(t.g), t.gc, t.def, key(t.h), t.hc)
		if seen[k] {
			continue
		}
		seen[k] = true
		out = append(out, t)
	}
	return out
}

func (s *Sched) exec(t *transition) {
	p := s.p
	s.trans++
	p.x.addTrans()
	g := t.g
	op := g.pending
	log := func(f string, a ...interface{}) { p.schedLog = append(p.schedLog, fmt.Sprintf(f, a...)) }
	wake := func(g *G) {
		g.pending = nil
		s.runnable = append(s.runnable, g)
	}
	switch op.kind {
	case opStep:
		wake(g)
		return
	case opClose:
		log("%s#%d closes ch%d", g.name, g.id, op.ch.idOr())
		switch {
		case op.ch == nil:
			op.boom, op.boomMsg = true, "close of nil channel"
		case op.ch.closed:
			op.boom, op.boomMsg = true, "close of closed channel"
		default:
			op.ch.closed = true
			if s.race {
				op.ch.vc = vcJoin(op.ch.vc, g.vc)
				g.vc = g.vc.tick(g.id)
			}
		}
		wake(g)
		return
	case opLock, opRLock:
		l := s.lock(op.addr)
		if op.kind == opLock {
			l.held = true
			if s.race {
				g.vc = vcJoin(vcJoin(g.vc, l.vc), l.rvc)
			}
		} else {
			l.readers++
			if s.race {
				g.vc = vcJoin(g.vc, l.vc)
			}
		}
		log("%s#%d locks", g.name, g.id)
		wake(g)
		return
	case opWait:
		if s.race {
			g.vc = vcJoin(g.vc, s.lock(op.addr).vc)
		}
		wake(g)
		return
	}
	if t.def {
		op.chosen = -1
		log("%s#%d default", g.name, g.id)
		wake(g)
		return
	}
	op.chosen = t.gc
	c := op.cases[t.gc]
	ch := c.ch
	if t.h != nil {
		h := t.h
		hop := h.pending
		hop.chosen = t.hc
		hop.recvV, hop.recvOK = copyVal(c.v), true
		if s.race {
			j := vcJoin(g.vc, h.vc)
			g.vc = j.tick(g.id)
			h.vc = j.tick(h.id)
		}
		log("%s#%d -> ch%d -> %s#%d", g.name, g.id, ch.id, h.name, h.id)
		wake(h)
		wake(g)
		return
	}
	if c.send {
		if ch.closed {
			op.boom, op.boomMsg = true, "send on closed channel"
			wake(g)
			return
		}
		ch.buf = append(append([]Value(nil), ch.buf...), copyVal(c.v))
		if s.race {
			g.vc = vcJoin(g.vc, ch.vc)
			ch.bufvc = append(append([]VC(nil), ch.bufvc...), g.vc)
			g.vc = g.vc.tick(g.id)
		}
		log("%s#%d -> ch%d", g.name, g.id, ch.id)
		wake(g)
		return
	}
	if len(ch.buf) > 0 {
		op.recvV, op.recvOK = ch.buf[0], true
		ch.buf = append([]Value(nil), ch.buf[1:]...)
		if s.race {
			g.vc = vcJoin(g.vc, ch.bufvc[0])
			ch.bufvc = append([]VC(nil), ch.bufvc[1:]...)
			ch.vc = vcJoin(ch.vc, g.vc)
			g.vc = g.vc.tick(g.id)
		}
	} else {
		op.recvOK = false
		if s.race {
			g.vc = vcJoin(g.vc, ch.vc)
		}
	}
	log("%s#%d <- ch%d", g.name, g.id, ch.id)
	wake(g)
}

func (c *Chan) idOr() int {
	if c == nil {
		return 0
	}
	return c.id
}

func (s *Sched) describe() string {
	var out []string
	for _, g := range s.gs {
		if g.done || g.pending == nil {
			continue
		}
		where := "?"
		if g.top != nil {
			where = s.p.posOf(g.top)
		}
		out = append(out, fmt.Sprintf("%s#%d blocked at %s", g.name, g.id, where))
	}
	return strings.Join(out, "; ")
}

func (p *Path) posOf(fr *Frame) string {
	for f := fr; f != nil; f = f.caller {
		if f.pc < len(f.fn.blocks[f.block]) {
			pos := p.x.eng.prog.Fset.Position(f.fn.blocks[f.block][f.pc].in.Pos())
			if pos.IsValid() {
				fn := pos.Filename
				if i := strings.LastIndex(fn, "/"); i >= 0 {
					fn = fn[i+1:]
				}
				return fmt.Sprintf("%s:%d", fn, pos.Line)
			}
		}
	}
	return "?"
}

// ---------- locks, wait groups ----------

func (p *Path) mutexLock(g *G, a *Value) {
	if p.sched == nil {
		return
	}
	p.visible(g, &pendingOp{kind: opLock, addr: a})
}

func (p *Path) mutexUnlock(g *G, a *Value) {
	if p.sched == nil {
		return
	}
	l := p.sched.lock(a)
	if !l.held {
		panic(crashPanic{iface{v: "fatal error: sync: unlock of unlocked mutex"}, g.name})
	}
	l.held = false
	if p.sched.race {
		l.vc = vcJoin(l.vc, g.vc)
		g.vc = g.vc.tick(g.id)
	}
}

func (p *Path) rLock(g *G, a *Value) {
	if p.sched == nil {
		return
	}
	p.visible(g, &pendingOp{kind: opRLock, addr: a})
}

func (p *Path) rUnlock(g *G, a *Value) {
	if p.sched == nil {
		return
	}
	l := p.sched.lock(a)
	if l.readers <= 0 {
		panic(crashPanic{iface{v: "fatal error: sync: RUnlock of unlocked RWMutex"}, g.name})
	}
	l.readers--
	if p.sched.race {
		l.rvc = vcJoin(l.rvc, g.vc)
		g.vc = g.vc.tick(g.id)
	}
}

func (p *Path) wgAdd(g *G, a *Value, n int64) {
	if p.sched == nil {
		return
	}
	l := p.sched.lock(a)
	l.count += n
	if l.count < 0 {
		panic(targetPanic{iface{t: p.x.eng.runtimeErrT, v: "sync: negative WaitGroup counter"}})
	}
	if p.sched.race && n < 0 {
		l.vc = vcJoin(l.vc, g.vc)
		g.vc = g.vc.tick(g.id)
	}
}

// atomicOp orders an atomic access
func (p *Path) atomicOp(g *G, a *Value) {
	if p.sched == nil || len(p.sched.gs) == 1 {
		return
	}
	p.visible(g, &pendingOp{kind: opStep})
	if p.sched.race {
		l := p.sched.lock(a)
		g.vc = vcJoin(g.vc, l.vc)
		l.vc = g.vc
		g.vc = g.vc.tick(g.id)
	}
}

// ---------- race detection ----------

func (s *Sched) cell(k interface{}) *cellState {
	c := s.cells[k]
	if c == nil {
		c = &cellState{}
		s.cells[k] = c
	}
	return c
}

func (s *Sched) read(g *G, a *Value, fr *Frame) {
	switch x := (*a).(type) {
	case structure:
		for i := range x {
			s.read(g, &x[i], fr)
		}
		if len(x) > 0 {
			return
		}
	case array:
		for i := range x {
			s.read(g, &x[i], fr)
		}
		if len(x) > 0 {
			return
		}
	}
	s.readObj(g, a, fr)
}

func (s *Sched) write(g *G, a *Value, fr *Frame) {
	switch x := (*a).(type) {
	case structure:
		for i := range x {
			s.write(g, &x[i], fr)
		}
		if len(x) > 0 {
			return
		}
	case array:
		for i := range x {
			s.write(g, &x[i], fr)
		}
		if len(x) > 0 {
			return
		}
	}
	s.writeObj(g, a, fr)
}

func (s *Sched) readObj(g *G, a interface{}, fr *Frame) {
	if g.id < 0 {
		return
	}
	c := s.cell(a)
	if c.hasW && c.w.g != g.id && g.vc.get(c.w.g) < c.w.clk {
		s.report(c.w, "write", g, "read", fr)
	}
	if len(s.gs) == 1 && len(c.reads) > 0 {
		return
	}
	for i := range c.reads {
		if c.reads[i].g == g.id {
			c.reads[i].clk = g.vc.get(g.id)
			if len(s.gs) > 1 {
				c.reads[i].pos = s.p.posOfFn(fr)
			}
			return
		}
	}
	c.reads = append(c.reads, accessRec{g.id, g.vc.get(g.id), s.p.posOfFn(fr)})
}

func (s *Sched) writeObj(g *G, a interface{}, fr *Frame) {
	if g.id < 0 {
		return
	}
	c := s.cell(a)
	if c.hasW && c.w.g != g.id && g.vc.get(c.w.g) < c.w.clk {
		s.report(c.w, "write", g, "write", fr)
	}
	for _, r := range c.reads {
		if r.g != g.id && g.vc.get(r.g) < r.clk {
			s.report(r, "read", g, "write", fr)
		}
	}
	c.w = accessRec{g.id, g.vc.get(g.id), s.p.posOfFn(fr)}
	c.hasW = true
	c.reads = c.reads[:0]
}

// posOfFn gives the target-package source position of an access
func (p *Path) posOfFn(fr *Frame) string {
	for f := fr; f != nil; f = f.caller {
		if f.fn.fn.Pkg != nil && isTarget(f.fn.fn.Pkg.Pkg.Path()) && f.pc < len(f.fn.blocks[f.block]) {
			pos := p.x.eng.prog.Fset.Position(f.fn.blocks[f.block][f.pc].in.Pos())
			if !pos.IsValid() {
				continue
			}
			fn := pos.Filename
			if i := strings.LastIndex(fn, "/"); i >= 0 {
				fn = fn[i+1:]
			}
			return fmt.Sprintf("%s (%s:%d)", f.fn.fn.Name(), fn, pos.Line)
		}
	}
	return "?"
}

func (s *Sched) report(old accessRec, ok string, g *G, nk string, fr *Frame) {
	fnOnly := func(p string) string {
		if i := strings.Index(p, " ("); i >= 0 {
			return p[:i]
		}
		return p
	}
	np := s.p.posOfFn(fr)
	a, b := ok+" in "+fnOnly(old.pos), nk+" in "+fnOnly(np)
	if b < a {
		a, b = b, a
	}
	k := a + " / " + b
	if s.raceSeen[k] {
		return
	}
	s.raceSeen[k] = true
	s.p.candidate("race", fmt.Sprintf("data race: %s (%s %s vs %s %s)", k, ok, old.pos, nk, np))
}

// ---------- state hashing ----------

// live slots after the instruction at (block, pc), excluding its own result
func (fn *Fn) liveAt(block, pc int) []int {
	ci := fn.blocks[block][pc]
	if ci.live != nil {
		return ci.live
	}
	liveMu.Lock()
	defer liveMu.Unlock()
	if ci.live != nil {
		return ci.live
	}
	if !fn.liveOnce {
		fn.computeLive()
	}
	live := map[int]bool{}
	b := fn.fn.Blocks[block]
	for _, s := range b.Succs {
		fn.liveThrough(live, b, s)
	}
	cis := fn.blocks[block]
	for i := len(cis) - 1; i > pc; i-- {
		fn.transfer(live, cis[i])
	}
	delete(live, ci.dst)
	out := make([]int, 0, len(live))
	for s := range live {
		out = append(out, s)
	}
	sort.Ints(out)
	ci.live = out
	return out
}

var liveMu sync.Mutex

func (fn *Fn) transfer(live map[int]bool, ci *CI) {
	if ci.dst >= 0 {
		delete(live, ci.dst)
	}
	if _, ok := ci.in.(*ssa.Phi); ok {
		return
	}
	for _, o := range ci.ops {
		if o.slot >= 0 {
			live[o.slot] = true
		}
	}
}

// liveThrough adds what is live on the edge b->s
func (fn *Fn) liveThrough(live map[int]bool, b, s *ssa.BasicBlock) {
	for k := range fn.liveIn[s.Index] {
		live[k] = true
	}
	idx := -1
	for i, p := range s.Preds {
		if p == b {
			idx = i
		}
	}
	for _, ci := range fn.blocks[s.Index] {
		if _, ok := ci.in.(*ssa.Phi); !ok {
			break
		}
		if o := ci.ops[idx]; o.slot >= 0 {
			live[o.slot] = true
		}
	}
}

func (fn *Fn) computeLive() {
	n := len(fn.blocks)
	fn.liveIn = make([]map[int]bool, n)
	for i := range fn.liveIn {
		fn.liveIn[i] = map[int]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			live := map[int]bool{}
			b := fn.fn.Blocks[i]
			for _, s := range b.Succs {
				fn.liveThrough(live, b, s)
			}
			cis := fn.blocks[i]
			for j := len(cis) - 1; j >= 0; j-- {
				fn.transfer(live, cis[j])
			}
			if len(live) != len(fn.liveIn[i]) {
				fn.liveIn[i] = live
				changed = true
			}
		}
	}
	fn.liveOnce = true
}

type hasher struct {
	p     *Path
	ident bool // identities instead of contents
	buf   []byte
	ids   map[interface{}]int
	work  []interface{}
	next  int
}

func (h *hasher) str(s string) {
	h.u(uint64(len(s)))
	h.buf = append(h.buf, s...)
}
func (h *hasher) u(v uint64) { h.buf = binary.AppendUvarint(h.buf, v) }
func (h *hasher) tag(b byte) { h.buf = append(h.buf, b) }

func (h *hasher) ref(k interface{}) {
	if h.ident {
		h.str(fmt.Sprintf("%p", k))
		return
	}
	id, ok := h.ids[k]
	if !ok {
		h.next++
		id = h.next
		h.ids[k] = id
		h.work = append(h.work, k)
	}
	h.u(uint64(id))
}

func (h *hasher) val(v Value) {
	switch x := v.(type) {
	case nil:
		h.tag(0)
	case bool:
		if x {
			h.tag(1)
		} else {
			h.tag(2)
		}
	case int64:
		h.tag(3)
		h.u(uint64(x))
	case int:
		h.tag(3)
		h.u(uint64(x))
	case float64:
		h.tag(4)
		h.u(math.Float64bits(x))
	case *Rl:
		h.tag(5)
		h.str(x.num.Key())
		for _, f := range x.den {
			h.str(f.p.Key())
			h.u(uint64(f.e))
		}
		h.tag(0)
	case *Term:
		h.tag(6)
		h.term(x)
	case string:
		h.tag(7)
		h.str(x)
	case *SymStr:
		h.tag(8)
		h.u(uint64(len(x.b)))
		for _, b := range x.b {
			h.val(b)
		}
	case *Value:
		h.tag(9)
		if x == nil {
			h.u(0)
			return
		}
		h.ref(x)
	case structure:
		h.tag(10)
		h.u(uint64(len(x)))
		for i := range x {
			h.cell(&x[i])
		}
	case array:
		h.tag(11)
		h.u(uint64(len(x)))
		for i := range x {
			h.cell(&x[i])
		}
	case slice:
		h.tag(12)
		h.u(uint64(len(x)))
		h.u(uint64(cap(x)))
		if cap(x) > 0 {
			f := x[:cap(x)]
			if h.ident {
				h.ref(&f[0])
				return
			}
			for i := range f {
				h.ref(&f[i])
			}
		} else if x == nil {
			h.tag(1)
		}
	case tuple:
		h.tag(13)
		h.u(uint64(len(x)))
		for i := range x {
			h.val(x[i])
		}
	case iface:
		h.tag(14)
		if x.t == nil {
			h.u(0)
			return
		}
		h.str(x.t.String())
		h.val(x.v)
	case *Closure:
		h.tag(15)
		if x == nil {
			return
		}
		h.str(x.fn.String())
		h.u(uint64(len(x.env)))
		for _, e := range x.env {
			h.val(e)
		}
	case *ssa.Function:
		h.tag(16)
		if x != nil {
			h.str(x.String())
		}
	case *ssa.Builtin:
		h.tag(17)
		h.str(x.Name())
	case *Chan:
		h.tag(18)
		if x == nil {
			h.u(0)
			return
		}
		h.ref(x)
	case *MapV:
		h.tag(19)
		if x == nil {
			h.u(0)
			return
		}
		h.ref(x)
	case *NumTok:
		h.tag(20)
		h.val(x.v)
	case *mapIter:
		h.tag(21)
		h.u(uint64(x.i))
		h.val(x.m)
		for _, k := range x.keys {
			h.val(k)
		}
	case *strIter:
		h.tag(22)
		h.u(uint64(x.i))
		h.str(x.s)
	default:
		h.tag(99)
		h.str(fmt.Sprintf("%T:%p", v, v))
	}
}

// cell: contents of an interior cell; registered so that pointers to it agree
func (h *hasher) cell(a *Value) {
	if h.ident {
		h.val(*a)
		return
	}
	if id, ok := h.ids[a]; ok {
		h.tag(200)
		h.u(uint64(id))
		if h.inWork(a) {
			return
		}
		return
	}
	h.next++
	h.ids[a] = h.next
	h.tag(201)
	h.val(*a)
}

func (h *hasher) inWork(a *Value) bool { return false }

func (h *hasher) term(t *Term) {
	if s, ok := h.p.termHash[t.id]; ok {
		h.buf = append(h.buf, s...)
		return
	}
	k := &hasher{p: h.p}
	k.u(uint64(t.op))
	k.u(uint64(t.sort))
	k.u(uint64(t.w))
	k.u(t.val)
	if t.op == OVar {
		k.str(t.name)
	}
	if t.p != nil {
		k.str(t.p.Key())
	}
	k.u(uint64(len(t.args)))
	for _, a := range t.args {
		k.term(a)
	}
	s := sha256.Sum256(k.buf)
	h.p.termHash[t.id] = s[:16]
	h.buf = append(h.buf, s[:16]...)
}

func (h *hasher) drain() {
	for len(h.work) > 0 {
		k := h.work[0]
		h.work = h.work[1:]
		switch x := k.(type) {
		case *Value:
			h.tag(100)
			h.val(*x)
		case *Chan:
			h.tag(101)
			h.u(uint64(x.cap))
			h.val(x.closed)
			h.val(x.never)
			h.u(uint64(len(x.buf)))
			for _, v := range x.buf {
				h.val(v)
			}
		case *MapV:
			h.tag(102)
			h.u(uint64(len(x.keys)))
			for i := range x.keys {
				h.val(x.keys[i])
				h.cell(x.vals[i])
			}
		}
	}
}

func (h *hasher) goroutine(g *G) {
	h.str(g.name)
	if g.done {
		h.tag(1)
		return
	}
	for f := g.top; f != nil; f = f.caller {
		h.str(f.fn.name)
		h.u(uint64(f.block))
		h.u(uint64(f.pc))
		for _, s := range f.fn.liveAt(f.block, f.pc) {
			h.val(f.env[s])
		}
		h.tag(250)
		for _, d := range f.defers {
			h.val(d.fn)
			for _, a := range d.args {
				h.val(a)
			}
		}
		if f.panicking {
			h.tag(251)
		}
	}
	if op := g.pending; op != nil {
		h.u(uint64(op.kind))
		h.val(op.hasDefault)
		for _, c := range op.cases {
			h.val(c.send)
			h.val(c.ch)
			h.val(c.v)
		}
		if op.ch != nil {
			h.val(op.ch)
		}
		if op.addr != nil {
			h.val(op.addr)
		}
	}
}

func (s *Sched) localKey(g *G) string {
	h := &hasher{p: s.p, ident: true}
	h.goroutine(g)
	return string(h.buf)
}

func (s *Sched) hashState() [16]byte {
	h := &hasher{p: s.p, ids: map[interface{}]int{}}
	// atoms give meaning to polynomials
	for _, a := range s.p.rc.atoms {
		h.u(uint64(a.kind))
		if a.def != nil {
			h.str(a.def.Key())
		}
		if a.defR != nil {
			h.val(a.defR)
		}
	}
	var pcs []string
	for _, t := range s.p.pc {
		k := &hasher{p: s.p}
		k.term(t)
		pcs = append(pcs, string(k.buf))
	}
	sort.Strings(pcs)
	for _, x := range pcs {
		h.buf = append(h.buf, x...)
	}
	// goroutines: main first, the rest ordered by their local shape
	gs := append([]*G(nil), s.gs[1:]...)
	keys := map[*G]string{}
	for _, g := range gs {
		k := &hasher{p: s.p, ids: map[interface{}]int{}}
		k.goroutine(g)
		keys[g] = string(k.buf)
	}
	sort.SliceStable(gs, func(i, j int) bool { return keys[gs[i]] < keys[gs[j]] })
	h.goroutine(s.gs[0])
	for _, g := range gs {
		h.goroutine(g)
	}
	// globals of the target package
	var names []string
	byName := map[string]*Value{}
	for gl, v := range s.p.globals {
		names = append(names, gl.String())
		byName[gl.String()] = v
	}
	sort.Strings(names)
	for _, n := range names {
		h.str(n)
		h.val(byName[n])
	}
	for a, l := range s.locks {
		if l.held || l.readers > 0 || l.count != 0 || l.done {
			// locks reachable from frames only; identity by canonical id
			h.tag(77)
			_ = a
		}
	}
	h.drain()
	var ls []string
	for a, l := range s.locks {
		if id, ok := h.ids[a]; ok && (l.held || l.readers > 0 || l.count != 0 || l.done) {
			ls = append(ls, fmt.Sprintf("%d:%v:%d:%d:%v", id, l.held, l.readers, l.count, l.done))
		}
	}
	sort.Strings(ls)
	h.str(strings.Join(ls, ","))
	sum := sha256.Sum256(h.buf)
	var out [16]byte
	copy(out[:], sum[:16])
	return out
}

var _ = big.NewInt
