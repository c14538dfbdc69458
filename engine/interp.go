package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ---------- compiled functions ----------

type opnd struct {
	slot  int
	val   Value
	glob  *ssa.Global
	zeroT types.Type
}

type CI struct {
	in   ssa.Instruction
	ops  []opnd
	dst  int
	kc   kindClass
	ik   intKind
	kc2  kindClass
	ik2  intKind
	live []int // lazily computed live slots (for scheduling points)
}

type Fn struct {
	fn     *ssa.Function
	name   string
	blocks [][]*CI
	nslots int
	native NativeFn
	hasDefer bool
	params []int
	free   []int
	redirect *ssa.Function
	liveOnce bool
	liveIn []map[int]bool
}

func (x *Explorer) fnOf(f *ssa.Function) *Fn {
	if v, ok := x.fns.Load(f); ok {
		return v.(*Fn)
	}
	n := x.compile(f)
	v, _ := x.fns.LoadOrStore(f, n)
	return v.(*Fn)
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}

// initFnOf compiles a package initializer (calls of other packages' initializers do nothing: they run on demand)
func (x *Explorer) initFnOf(f *ssa.Function) *Fn {
	x.initMu.Lock()
	defer x.initMu.Unlock()
	if n, ok := x.initFns[f]; ok {
		return n
	}
	n := x.compileBody(&Fn{fn: f, name: fnName(f)}, f)
	x.initFns[f] = n
	return n
}

func (x *Explorer) compile(f *ssa.Function) *Fn {
	n := &Fn{fn: f, name: fnName(f)}
	if r, ok := x.redirects[n.name]; ok {
		n.redirect = r
		return n
	}
	if f.Synthetic == "package initializer" {
		n.native = func(p *Path, g *G, args []Value) Value { return nil }
		return n
	}
	if nf, ok := x.natives[n.name]; ok {
		n.native = nf
		return n
	}
	if f.Blocks == nil {
		if f.Pkg != nil {
			x.eng.mu.Lock()
			f.Pkg.Build()
			x.eng.mu.Unlock()
		}
		if f.Blocks == nil {
			name := n.name
			n.native = func(p *Path, g *G, args []Value) Value {
				panic(abortPath{"no body: " + name})
			}
			return n
		}
	}
	return x.compileBody(n, f)
}

func (x *Explorer) compileBody(n *Fn, f *ssa.Function) *Fn {
	slots := map[ssa.Value]int{}
	ns := 0
	alloc := func(v ssa.Value) int {
		slots[v] = ns
		ns++
		return ns - 1
	}
	for _, p := range f.Params {
		n.params = append(n.params, alloc(p))
	}
	for _, p := range f.FreeVars {
		n.free = append(n.free, alloc(p))
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				n.hasDefer = true
			}
		}
	}
	if f.Recover != nil {
		n.hasDefer = true
	}
	var rands [16]*ssa.Value
	for _, b := range f.Blocks {
		var cis []*CI
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := &CI{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = slots[v]
			}
			for _, r := range in.Operands(rands[:0]) {
				if *r == nil {
					ci.ops = append(ci.ops, opnd{slot: -1})
					continue
				}
				ci.ops = append(ci.ops, x.operand(*r, slots))
			}
			switch i := in.(type) {
			case *ssa.BinOp:
				ci.kc, ci.ik = classify(i.X.Type())
				ci.kc2, ci.ik2 = classify(i.Y.Type())
			case *ssa.UnOp:
				ci.kc, ci.ik = classify(i.X.Type())
			case *ssa.Convert:
				ci.kc, ci.ik = classify(i.X.Type())
				ci.kc2, ci.ik2 = classify(i.Type())
			case *ssa.IndexAddr:
				ci.kc, ci.ik = classify(i.Index.Type())
			case *ssa.Index:
				ci.kc, ci.ik = classify(i.Index.Type())
			case *ssa.Lookup:
				ci.kc, ci.ik = classify(i.Index.Type())
			}
			cis = append(cis, ci)
		}
		n.blocks = append(n.blocks, cis)
	}
	n.nslots = ns
	return n
}

func (x *Explorer) operand(v ssa.Value, slots map[ssa.Value]int) opnd {
	switch c := v.(type) {
	case *ssa.Const:
		t := c.Type().Underlying()
		if c.Value == nil {
			switch t.(type) {
			case *types.Struct, *types.Array:
				return opnd{slot: -1, zeroT: c.Type()}
			}
			return opnd{slot: -1, val: x.proto.zero(c.Type())}
		}
		return opnd{slot: -1, val: x.constVal(c)}
	case *ssa.Global:
		return opnd{slot: -1, glob: c}
	case *ssa.Function, *ssa.Builtin:
		return opnd{slot: -1, val: c}
	}
	s, ok := slots[v]
	if !ok {
		panic(fmt.Sprintf("no slot for %s", v))
	}
	return opnd{slot: s}
}

func (x *Explorer) constVal(c *ssa.Const) Value {
	kc, ik := classify(c.Type())
	switch kc {
	case kBool:
		return constant.BoolVal(c.Value)
	case kInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return wrapInt(i, ik)
		}
		u, _ := constant.Uint64Val(v)
		return wrapInt(int64(u), ik)
	case kFloat:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if x.cfg.fp {
			return f
		}
		return rlConst(floatToRat(f))
	case kString:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(c.Value)
		return string(rune(i))
	case kComplex:
		return complex(0, 0)
	}
	panic(fmt.Sprintf("const %v", c))
}

// ---------- frames ----------

type deferred struct {
	fn   Value
	args []Value
}

type Frame struct {
	g      *G
	caller *Frame
	fn     *Fn
	env    []Value
	block  int
	prev   int
	pc     int
	defers []*deferred
	result Value
	panicking bool
	panicV interface{}
	recovered bool
}

func (p *Path) get(fr *Frame, o *opnd) Value {
	if o.slot >= 0 {
		return fr.env[o.slot]
	}
	if o.glob != nil {
		return p.global(o.glob)
	}
	if o.zeroT != nil {
		return p.zero(o.zeroT)
	}
	return o.val
}

func (p *Path) throw(msg string) {
	panic(targetPanic{iface{t: p.x.eng.runtimeErrT, v: "runtime error: " + msg}})
}

// callValue calls any function value
func (p *Path) callValue(g *G, caller *Frame, fv Value, args []Value) Value {
	switch f := fv.(type) {
	case *ssa.Function:
		if f == nil {
			p.throw("invalid memory address or nil pointer dereference (nil func)")
		}
		return p.callFn(g, caller, f, args, nil)
	case *Closure:
		return p.callFn(g, caller, f.fn, args, f.env)
	case NativeFn:
		return f(p, g, args)
	case *ssa.Builtin:
		return p.builtin(g, caller, f, args, nil)
	}
	panic(abortPath{fmt.Sprintf("call of %T", fv)})
}

func (p *Path) callFn(g *G, caller *Frame, f *ssa.Function, args []Value, free []Value) Value {
	fn := p.x.fnOf(f)
	for fn.redirect != nil {
		fn = p.x.fnOf(fn.redirect)
	}
	if fn.native != nil {
		p.x.noteStub(fn.name)
		g.nativeCaller = caller
		return fn.native(p, g, args)
	}
	p.x.noteFn(fn)
	fr := &Frame{g: g, caller: caller, fn: fn, env: make([]Value, fn.nslots)}
	if len(args) != len(fn.params) {
		panic(abortPath{fmt.Sprintf("arity %s: %d vs %d", fn.name, len(args), len(fn.params))})
	}
	for i, s := range fn.params {
		fr.env[s] = args[i]
	}
	for i, s := range fn.free {
		fr.env[s] = free[i]
	}
	g.depth++
	if g.depth > 2000 {
		panic(abortPath{"recursion depth"})
	}
	g.top = fr
	if fn.hasDefer {
		p.runWithDefer(fr)
	} else {
		p.runFrame(fr)
	}
	g.top = caller
	g.depth--
	return fr.result
}

func (p *Path) runWithDefer(fr *Frame) {
	depth := fr.g.depth
	func() {
		defer func() {
			if fr.fn == nil {
				return
			}
			r := recover()
			if r == nil {
				return
			}
			tp, ok := r.(targetPanic)
			if !ok {
				panic(r)
			}
			fr.g.depth = depth
			fr.g.top = fr
			fr.panicking = true
			fr.panicV = tp
		}()
		p.runFrame(fr)
	}()
	if fr.panicking {
		p.runDefers(fr)
		if fr.panicking {
			panic(fr.panicV)
		}
		// recovered: run the recover block if any
		if rb := fr.fn.fn.Recover; rb != nil {
			fr.block, fr.pc = rb.Index, 0
			p.runFrame(fr)
		} else {
			fr.result = p.zeroResult(fr.fn.fn)
		}
	}
}

func (p *Path) zeroResult(f *ssa.Function) Value {
	r := f.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return p.zero(r.At(0).Type())
	}
	return p.zero(r)
}

func (p *Path) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			depth := fr.g.depth
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				if tp, ok := r.(targetPanic); ok {
					fr.g.depth = depth
					fr.g.top = fr
					fr.panicking = true
					fr.panicV = tp
					return
				}
				panic(r)
			}()
			p.callValue(fr.g, fr, d.fn, d.args)
		}()
	}
}

// ---------- main loop ----------

func (p *Path) runFrame(fr *Frame) {
	fn := fr.fn
	for {
		cis := fn.blocks[fr.block]
	instrs:
		for fr.pc < len(cis) {
			ci := cis[fr.pc]
			p.steps++
			if p.steps > p.x.cfg.stepLimit {
				if p.x.cfg.term {
					panic(nonTerm{})
				}
				panic(abortPath{"step limit"})
			}
			switch in := ci.in.(type) {
			case *ssa.Phi:
				// evaluate all phis of the block in parallel
				var idx int = -1
				for i, pr := range in.Block().Preds {
					if pr.Index == fr.prev {
						idx = i
						break
					}
				}
				var vals []Value
				n := fr.pc
				for n < len(cis) {
					if _, ok := cis[n].in.(*ssa.Phi); !ok {
						break
					}
					vals = append(vals, p.get(fr, &cis[n].ops[idx]))
					n++
				}
				for i, v := range vals {
					fr.env[cis[fr.pc+i].dst] = v
				}
				fr.pc = n
				continue
			case *ssa.If:
				c := p.cond(p.get(fr, &ci.ops[0]))
				fr.prev = fr.block
				if c {
					fr.block = in.Block().Succs[0].Index
				} else {
					fr.block = in.Block().Succs[1].Index
				}
				fr.pc = 0
				break instrs
			case *ssa.Jump:
				fr.prev = fr.block
				fr.block = in.Block().Succs[0].Index
				fr.pc = 0
				break instrs
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.result = p.get(fr, &ci.ops[0])
				default:
					t := make(tuple, len(ci.ops))
					for i := range ci.ops {
						t[i] = p.get(fr, &ci.ops[i])
					}
					fr.result = t
				}
				return
			case *ssa.Panic:
				panic(targetPanic{p.get(fr, &ci.ops[0])})
			default:
				v := p.step(fr, ci)
				if ci.dst >= 0 {
					fr.env[ci.dst] = v
				}
			}
			fr.pc++
		}
	}
}

func (p *Path) deref(v Value) *Value {
	a, ok := v.(*Value)
	if !ok {
		panic(abortPath{fmt.Sprintf("deref of %T", v)})
	}
	if a == nil {
		p.throw("invalid memory address or nil pointer dereference")
	}
	return a
}

func (p *Path) step(fr *Frame, ci *CI) Value {
	g := fr.g
	switch in := ci.in.(type) {
	case *ssa.UnOp:
		return p.unop(fr, ci, in)
	case *ssa.BinOp:
		return p.binop(in.Op, p.get(fr, &ci.ops[0]), p.get(fr, &ci.ops[1]), ci, in.X.Type())
	case *ssa.Call:
		fv, args := p.prepCall(fr, ci, &in.Call)
		if b, ok := fv.(*ssa.Builtin); ok {
			return p.builtin(g, fr, b, args, &in.Call)
		}
		r := p.callValue(g, fr, fv, args)
		g.top = fr
		return r
	case *ssa.Store:
		a := p.deref(p.get(fr, &ci.ops[0]))
		v := p.get(fr, &ci.ops[1])
		if p.sched != nil && p.sched.race {
			p.sched.write(g, a, fr)
		}
		storeInto(a, v)
		return nil
	case *ssa.Alloc:
		var v Value = p.zero(in.Type().Underlying().(*types.Pointer).Elem())
		return &v
	case *ssa.FieldAddr:
		a := p.deref(p.get(fr, &ci.ops[0]))
		s, ok := (*a).(structure)
		if !ok {
			panic(abortPath{fmt.Sprintf("FieldAddr on %T in %s", *a, fr.fn.name)})
		}
		return &s[in.Field]
	case *ssa.Field:
		s, ok := p.get(fr, &ci.ops[0]).(structure)
		if !ok {
			panic(abortPath{"Field on non-struct in " + fr.fn.name})
		}
		return s[in.Field]
	case *ssa.IndexAddr:
		x := p.get(fr, &ci.ops[0])
		i := p.concInt(p.get(fr, &ci.ops[1]), ci.ik)
		switch s := x.(type) {
		case slice:
			if i < 0 || i >= int64(len(s)) {
				p.throw(fmt.Sprintf("index out of range [%d] with length %d", i, len(s)))
			}
			return &s[i]
		case *Value:
			arr := (*p.deref(s)).(array)
			if i < 0 || i >= int64(len(arr)) {
				p.throw(fmt.Sprintf("index out of range [%d] with length %d", i, len(arr)))
			}
			return &arr[i]
		}
		panic(abortPath{fmt.Sprintf("IndexAddr on %T", x)})
	case *ssa.Index:
		x := p.get(fr, &ci.ops[0])
		i := p.concInt(p.get(fr, &ci.ops[1]), ci.ik)
		switch s := x.(type) {
		case array:
			if i < 0 || i >= int64(len(s)) {
				p.throw("index out of range")
			}
			return s[i]
		case string:
			if i < 0 || i >= int64(len(s)) {
				p.throw("index out of range")
			}
			return int64(s[i])
		case *SymStr:
			if i < 0 || i >= int64(len(s.b)) {
				p.throw("index out of range")
			}
			return s.b[i]
		}
		panic(abortPath{fmt.Sprintf("Index on %T", x)})
	case *ssa.MakeInterface:
		return iface{in.X.Type(), p.get(fr, &ci.ops[0])}
	case *ssa.Convert:
		return p.convert(p.get(fr, &ci.ops[0]), in.X.Type(), in.Type(), ci.kc, ci.ik, ci.kc2, ci.ik2)
	case *ssa.MultiConvert:
		kc, ik := classify(in.X.Type())
		kc2, ik2 := classify(in.Type())
		return p.convert(p.get(fr, &ci.ops[0]), in.X.Type(), in.Type(), kc, ik, kc2, ik2)
	case *ssa.ChangeType, *ssa.ChangeInterface:
		return p.get(fr, &ci.ops[0])
	case *ssa.MakeSlice:
		n := p.concInt(p.get(fr, &ci.ops[0]), intKind{64, true})
		c := p.concInt(p.get(fr, &ci.ops[1]), intKind{64, true})
		if n < 0 || n > 1<<24 {
			p.throw("makeslice: len out of range")
		}
		if c < n || c > 1<<24 {
			p.throw("makeslice: cap out of range")
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		s := make(slice, n, c)
		full := s[:c]
		p.fillZero(full, et)
		return s
	case *ssa.Slice:
		return p.sliceOp(fr, ci, in)
	case *ssa.Extract:
		return p.get(fr, &ci.ops[0]).(tuple)[in.Index]
	case *ssa.TypeAssert:
		return p.typeAssert(in, p.get(fr, &ci.ops[0]))
	case *ssa.MakeClosure:
		c := &Closure{fn: in.Fn.(*ssa.Function)}
		for i := 1; i < len(ci.ops); i++ {
			c.env = append(c.env, p.get(fr, &ci.ops[i]))
		}
		return c
	case *ssa.MakeMap:
		return &MapV{kt: in.Type().Underlying().(*types.Map).Key()}
	case *ssa.MakeChan:
		n := p.concInt(p.get(fr, &ci.ops[0]), intKind{64, true})
		p.nextChan++
		return &Chan{id: p.nextChan, cap: int(n)}
	case *ssa.MapUpdate:
		m := p.get(fr, &ci.ops[0]).(*MapV)
		if m == nil {
			panic(targetPanic{iface{t: p.x.eng.runtimeErrT, v: "assignment to entry in nil map"}})
		}
		p.mapSet(g, fr, m, p.get(fr, &ci.ops[1]), p.get(fr, &ci.ops[2]))
		return nil
	case *ssa.Lookup:
		x := p.get(fr, &ci.ops[0])
		switch m := x.(type) {
		case *MapV:
			v, ok := p.mapGet(g, fr, m, p.get(fr, &ci.ops[1]))
			if !ok {
				v = p.zero(in.X.Type().Underlying().(*types.Map).Elem())
			}
			v = copyVal(v)
			if in.CommaOk {
				return tuple{v, ok}
			}
			return v
		case string, *SymStr:
			i := p.concInt(p.get(fr, &ci.ops[1]), ci.ik)
			if i < 0 || i >= int64(strLen(x)) {
				p.throw("index out of range")
			}
			if s, ok := x.(string); ok {
				return int64(s[i])
			}
			return x.(*SymStr).b[i]
		}
		panic(abortPath{fmt.Sprintf("Lookup on %T", x)})
	case *ssa.Range:
		x := p.get(fr, &ci.ops[0])
		switch m := x.(type) {
		case *MapV:
			it := &mapIter{}
			if m != nil {
				it.m = m
				it.keys = append(it.keys, m.keys...)
				if p.sched != nil && p.sched.race {
					p.sched.readObj(g, m, fr)
				}
				if p.x.cfg.mapOrder && len(it.keys) > 1 && len(it.keys) <= 3 {
					// nondeterministic order
					var out []Value
					ks := append([]Value(nil), it.keys...)
					for len(ks) > 0 {
						i := p.choose(len(ks))
						out = append(out, ks[i])
						ks = append(ks[:i:i], ks[i+1:]...)
					}
					it.keys = out
				}
			}
			return it
		case string:
			return &strIter{s: m}
		case *SymStr:
			return &strIter{sym: m}
		}
		panic(abortPath{fmt.Sprintf("Range over %T", x)})
	case *ssa.Next:
		switch it := p.get(fr, &ci.ops[0]).(type) {
		case *mapIter:
			for it.i < len(it.keys) {
				k := it.keys[it.i]
				it.i++
				if v, ok := p.mapGet(g, fr, it.m, k); ok {
					return tuple{true, k, copyVal(v)}
				}
			}
			tt := in.Type().(*types.Tuple)
			r := tuple{false, nil, nil}
			for j := 1; j < 3; j++ {
				if b, ok := tt.At(j).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
					continue
				}
				r[j] = p.zero(tt.At(j).Type())
			}
			return r
		case *strIter:
			if it.sym != nil {
				if it.i >= len(it.sym.b) {
					return tuple{false, int64(0), int64(0)}
				}
				i := it.i
				it.i++
				return tuple{true, int64(i), p.runeOfByte(it.sym.b[i])}
			}
			if it.i >= len(it.s) {
				return tuple{false, int64(0), int64(0)}
			}
			r, n := utf8.DecodeRuneInString(it.s[it.i:])
			i := it.i
			it.i += n
			return tuple{true, int64(i), int64(r)}
		}
		panic(abortPath{"Next"})
	case *ssa.Defer:
		fv, args := p.prepCall(fr, ci, &in.Call)
		fr.defers = append(fr.defers, &deferred{fv, args})
		return nil
	case *ssa.RunDefers:
		p.runDefers(fr)
		if fr.panicking {
			panic(fr.panicV)
		}
		return nil
	case *ssa.Go:
		fv, args := p.prepCall(fr, ci, &in.Call)
		p.spawn(g, fv, args)
		return nil
	case *ssa.Send:
		ch := p.get(fr, &ci.ops[0]).(*Chan)
		p.visible(g, &pendingOp{kind: opSelect, cases: []selCase{{send: true, ch: ch, v: p.get(fr, &ci.ops[1])}}})
		return nil
	case *ssa.Select:
		return p.selectOp(fr, ci, in)
	case *ssa.SliceToArrayPointer:
		s := p.get(fr, &ci.ops[0]).(slice)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if int64(len(s)) < n {
			p.throw("cannot convert slice to array pointer")
		}
		if s == nil {
			return (*Value)(nil)
		}
		var v Value = array(s[:n:n])
		return &v
	}
	panic(abortPath{fmt.Sprintf("instruction %T", ci.in)})
}

type mapIter struct {
	m    *MapV
	keys []Value
	i    int
}
type strIter struct {
	s   string
	sym *SymStr
	i   int
}

func (p *Path) runeOfByte(b Value) Value {
	switch x := b.(type) {
	case int64:
		return x
	case *Term:
		return bvVal(p.tc.Resize(x, 32, false), intKind{32, true})
	}
	return byteOf(b)
}

func (p *Path) fillZero(s slice, et types.Type) {
	switch et.Underlying().(type) {
	case *types.Struct, *types.Array:
		for i := range s {
			s[i] = p.zero(et)
		}
	default:
		z := p.zero(et)
		for i := range s {
			s[i] = z
		}
	}
}

func (p *Path) prepCall(fr *Frame, ci *CI, call *ssa.CallCommon) (Value, []Value) {
	if call.Method == nil {
		fv := p.get(fr, &ci.ops[0])
		args := make([]Value, 0, len(ci.ops)-1)
		for i := 1; i <= len(call.Args); i++ {
			args = append(args, copyVal(p.get(fr, &ci.ops[i])))
		}
		return fv, args
	}
	recv, ok := p.get(fr, &ci.ops[0]).(iface)
	if !ok {
		panic(abortPath{"invoke on non-interface"})
	}
	if recv.t == nil {
		p.throw("invalid memory address or nil pointer dereference (nil interface)")
	}
	args := make([]Value, 0, len(ci.ops))
	args = append(args, copyVal(recv.v))
	for i := 1; i <= len(call.Args); i++ {
		args = append(args, copyVal(p.get(fr, &ci.ops[i])))
	}
	return p.methodOf(recv.t, call.Method), args
}

func (p *Path) methodOf(t types.Type, m *types.Func) Value {
	if nt, ok := t.(*nativeType); ok {
		if f, ok := nt.methods[m.Name()]; ok {
			return f
		}
		panic(abortPath{"native method " + m.Name()})
	}
	f := p.x.eng.lookupMethod(t, m)
	if f == nil {
		panic(abortPath{fmt.Sprintf("method %s of %s", m.Name(), t)})
	}
	return f
}

func (p *Path) unop(fr *Frame, ci *CI, in *ssa.UnOp) Value {
	x := p.get(fr, &ci.ops[0])
	switch in.Op {
	case token.MUL: // load
		a := p.deref(x)
		if p.sched != nil && p.sched.race {
			p.sched.read(fr.g, a, fr)
		}
		return copyVal(*a)
	case token.NOT:
		switch b := x.(type) {
		case bool:
			return !b
		case *Term:
			return boolVal(p.tc.Not(b))
		}
	case token.SUB:
		switch ci.kc {
		case kInt:
			if i, ok := x.(int64); ok {
				return wrapInt(-i, ci.ik)
			}
			return bvVal(p.tc.Un(ONeg, p.bvTerm(x, ci.ik)), ci.ik)
		case kFloat:
			return p.fneg(x)
		}
	case token.XOR:
		if i, ok := x.(int64); ok {
			return wrapInt(^i, ci.ik)
		}
		return bvVal(p.tc.Un(OBNot, p.bvTerm(x, ci.ik)), ci.ik)
	case token.ARROW:
		ch := x.(*Chan)
		op := &pendingOp{kind: opSelect, cases: []selCase{{ch: ch}}}
		p.visible(fr.g, op)
		v, ok := op.recvV, op.recvOK
		if !ok {
			v = p.zero(in.X.Type().Underlying().(*types.Chan).Elem())
		}
		if in.CommaOk {
			return tuple{v, ok}
		}
		return v
	}
	panic(abortPath{fmt.Sprintf("unop %s on %T", in.Op, x)})
}

func (p *Path) selectOp(fr *Frame, ci *CI, in *ssa.Select) Value {
	op := &pendingOp{kind: opSelect, hasDefault: !in.Blocking}
	k := 0
	for _, st := range in.States {
		ch := p.get(fr, &ci.ops[k]).(*Chan)
		k++
		c := selCase{ch: ch}
		// operands order: Chan, Send for each state
		v := ci.ops[k]
		k++
		if st.Dir == types.SendOnly {
			c.send = true
			c.v = p.get(fr, &v)
		}
		op.cases = append(op.cases, c)
	}
	p.visible(fr.g, op)
	r := tuple{int64(op.chosen), op.recvOK}
	for i, st := range in.States {
		if st.Dir == types.RecvOnly {
			var v Value = p.zero(st.Chan.Type().Underlying().(*types.Chan).Elem())
			if i == op.chosen && op.recvOK {
				v = op.recvV
			}
			r = append(r, v)
		}
	}
	return r
}

// ---------- binop ----------

func (p *Path) binop(op token.Token, x, y Value, ci *CI, t types.Type) Value {
	switch ci.kc {
	case kInt:
		return p.intBin(op, x, y, ci.ik, ci.ik2)
	case kFloat:
		switch op {
		case token.ADD:
			return p.fadd(x, y)
		case token.SUB:
			return p.fsub(x, y)
		case token.MUL:
			return p.fmul(x, y)
		case token.QUO:
			return p.fdiv(x, y)
		case token.LSS:
			return p.fcmp(OFLt, x, y)
		case token.LEQ:
			return p.fcmp(OFLe, x, y)
		case token.GTR:
			return p.fcmp(OFLt, y, x)
		case token.GEQ:
			return p.fcmp(OFLe, y, x)
		case token.EQL:
			return p.fcmp(OFEq, x, y)
		case token.NEQ:
			return p.not(p.fcmp(OFEq, x, y))
		}
	case kString:
		return p.strBin(op, x, y)
	}
	switch op {
	case token.EQL:
		return p.equal(x, y)
	case token.NEQ:
		return p.not(p.equal(x, y))
	}
	if ci.kc == kBool {
		a, b := p.boolTerm(x), p.boolTerm(y)
		switch op {
		case token.AND:
			return boolVal(p.tc.And(a, b))
		case token.OR:
			return boolVal(p.tc.Or(a, b))
		}
	}
	panic(abortPath{fmt.Sprintf("binop %s on %T", op, x)})
}

func (p *Path) not(v Value) Value {
	switch b := v.(type) {
	case bool:
		return !b
	case *Term:
		return boolVal(p.tc.Not(b))
	}
	panic(abortPath{"not"})
}

func (p *Path) intBin(op token.Token, x, y Value, k, k2 intKind) Value {
	a, ok := x.(int64)
	b, ok2 := y.(int64)
	if ok && ok2 {
		switch op {
		case token.ADD:
			return wrapInt(a+b, k)
		case token.SUB:
			return wrapInt(a-b, k)
		case token.MUL:
			return wrapInt(a*b, k)
		case token.QUO:
			if b == 0 {
				p.throw("integer divide by zero")
			}
			if k.signed {
				if b == -1 {
					return wrapInt(-a, k)
				}
				return wrapInt(a/b, k)
			}
			return wrapInt(int64(uint64(a)/uint64(b)), k)
		case token.REM:
			if b == 0 {
				p.throw("integer divide by zero")
			}
			if k.signed {
				if b == -1 {
					return int64(0)
				}
				return wrapInt(a%b, k)
			}
			return wrapInt(int64(uint64(a)%uint64(b)), k)
		case token.AND:
			return a & b
		case token.OR:
			return a | b
		case token.XOR:
			return wrapInt(a^b, k)
		case token.AND_NOT:
			return a &^ b
		case token.SHL:
			if k2.signed && b < 0 {
				p.throw("negative shift amount")
			}
			if uint64(b) >= uint64(k.w) {
				return int64(0)
			}
			return wrapInt(a<<uint64(b), k)
		case token.SHR:
			if k2.signed && b < 0 {
				p.throw("negative shift amount")
			}
			if k.signed {
				if uint64(b) > 63 {
					b = 63
				}
				return wrapInt(a>>uint64(b), k)
			}
			if uint64(b) >= 64 {
				return int64(0)
			}
			return wrapInt(int64((uint64(a)&mask(k.w))>>uint64(b)), k)
		case token.EQL:
			return a == b
		case token.NEQ:
			return a != b
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			var lt, eq bool
			if k.signed {
				lt = a < b
			} else {
				lt = uint64(a) < uint64(b)
			}
			eq = a == b
			switch op {
			case token.LSS:
				return lt
			case token.LEQ:
				return lt || eq
			case token.GTR:
				return !lt && !eq
			}
			return !lt
		}
	}
	// tokens and symbolic
	if _, isTok := x.(*NumTok); isTok {
		return p.intBin(op, int64('7'), y, k, k2)
	}
	if _, isTok := y.(*NumTok); isTok {
		return p.intBin(op, x, int64('7'), k, k2)
	}
	if _, isTok := x.(*JTok); isTok {
		return p.intBin(op, int64('7'), y, k, k2)
	}
	if _, isTok := y.(*JTok); isTok {
		return p.intBin(op, x, int64('7'), k, k2)
	}
	tc := p.tc
	A := p.bvTerm(x, k)
	switch op {
	case token.SHL, token.SHR:
		var B *Term
		if ok2 {
			if k2.signed && b < 0 {
				p.throw("negative shift amount")
			}
			if uint64(b) > 64 {
				b = 64
			}
			B = tc.bvC(uint64(b), k.w)
			if k.w <= 6 {
				panic(abortPath{"shift width"})
			}
		} else {
			yt := y.(*Term)
			if k2.signed {
				if p.decide(tc.Cmp(OSlt, yt, tc.bvC(0, yt.w))) {
					p.throw("negative shift amount")
				}
			}
			if yt.w > k.w {
				big := tc.Cmp(OUle, tc.bvC(uint64(k.w), yt.w), yt)
				B = tc.Ite(big, tc.bvC(uint64(k.w), k.w), tc.Resize(yt, k.w, false))
			} else {
				B = tc.Resize(yt, k.w, false)
			}
		}
		if op == token.SHL {
			return bvVal(tc.Bin(OShl, A, B), k)
		}
		if k.signed {
			return bvVal(tc.Bin(OAshr, A, B), k)
		}
		return bvVal(tc.Bin(OLshr, A, B), k)
	}
	B := p.bvTerm(y, k)
	switch op {
	case token.ADD:
		return bvVal(tc.Bin(OAdd, A, B), k)
	case token.SUB:
		return bvVal(tc.Bin(OSub, A, B), k)
	case token.MUL:
		return bvVal(tc.Bin(OMul, A, B), k)
	case token.QUO, token.REM:
		if p.decide(tc.Eq(B, tc.bvC(0, k.w))) {
			p.throw("integer divide by zero")
		}
		o := map[bool]map[bool]Op{true: {true: OSdiv, false: OSrem}, false: {true: OUdiv, false: OUrem}}[k.signed][op == token.QUO]
		return bvVal(tc.Bin(o, A, B), k)
	case token.AND:
		return bvVal(tc.Bin(OBAnd, A, B), k)
	case token.OR:
		return bvVal(tc.Bin(OBOr, A, B), k)
	case token.XOR:
		return bvVal(tc.Bin(OBXor, A, B), k)
	case token.AND_NOT:
		return bvVal(tc.Bin(OBAnd, A, tc.Un(OBNot, B)), k)
	case token.EQL:
		return boolVal(tc.Eq(A, B))
	case token.NEQ:
		return boolVal(tc.Not(tc.Eq(A, B)))
	case token.LSS, token.GEQ:
		o := OUlt
		if k.signed {
			o = OSlt
		}
		t := tc.Cmp(o, A, B)
		if op == token.GEQ {
			t = tc.Not(t)
		}
		return boolVal(t)
	case token.LEQ, token.GTR:
		o := OUle
		if k.signed {
			o = OSle
		}
		t := tc.Cmp(o, A, B)
		if op == token.GTR {
			t = tc.Not(t)
		}
		return boolVal(t)
	}
	panic(abortPath{fmt.Sprintf("int op %s", op)})
}

func (p *Path) strBin(op token.Token, x, y Value) Value {
	a, ok := x.(string)
	b, ok2 := y.(string)
	if ok && ok2 {
		switch op {
		case token.ADD:
			return a + b
		case token.EQL:
			return a == b
		case token.NEQ:
			return a != b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	}
	xb, yb := strBytes(x), strBytes(y)
	switch op {
	case token.ADD:
		return mkStr(append(append([]Value(nil), xb...), yb...))
	case token.EQL:
		return boolVal(p.bytesEq(xb, yb))
	case token.NEQ:
		return boolVal(p.tc.Not(p.bytesEq(xb, yb)))
	}
	panic(abortPath{"ordering of symbolic strings"})
}

func (p *Path) bytesEq(a, b []Value) *Term {
	if len(a) != len(b) {
		return p.tc.F
	}
	var cs []*Term
	for i := range a {
		ta, oka := a[i].(*NumTok)
		tb, okb := b[i].(*NumTok)
		if oka || okb {
			if oka && okb {
				if ta == tb {
					continue
				}
				cs = append(cs, p.boolTerm(p.fcmp(OFEq, ta.v, tb.v)))
				continue
			}
			return p.tc.F
		}
		cs = append(cs, p.tc.Eq(p.bvTerm(a[i], intKind{8, false}), p.bvTerm(b[i], intKind{8, false})))
	}
	return p.tc.And(cs...)
}

// equal: Go == on arbitrary comparable values
func (p *Path) equal(x, y Value) Value {
	switch a := x.(type) {
	case bool:
		if b, ok := y.(bool); ok {
			return a == b
		}
		return boolVal(p.tc.Eq(p.boolTerm(x), p.boolTerm(y)))
	case int64:
		if b, ok := y.(int64); ok {
			return a == b
		}
		if b, ok := y.(*Term); ok {
			return boolVal(p.tc.Eq(p.tc.bvC(uint64(a), b.w), b))
		}
		return a == '7'
	case *Term:
		switch b := y.(type) {
		case *Term:
			if a.sort == SFP {
				return boolVal(p.tc.FCmp(OFEq, a, b))
			}
			return boolVal(p.tc.Eq(a, b))
		case int64:
			return boolVal(p.tc.Eq(a, p.tc.bvC(uint64(b), a.w)))
		case bool:
			return boolVal(p.tc.Eq(a, p.tc.boolC(b)))
		case float64:
			return boolVal(p.tc.FCmp(OFEq, a, p.tc.fpC(b)))
		}
	case float64, *Rl:
		return p.fcmp(OFEq, x, y)
	case string, *SymStr:
		return p.strBin(token.EQL, x, y)
	case *Value:
		b, _ := y.(*Value)
		return a == b
	case *Chan:
		b, _ := y.(*Chan)
		return a == b
	case *MapV:
		b, _ := y.(*MapV)
		return a == b
	case slice:
		b, ok := y.(slice)
		if ok && (a == nil || b == nil) {
			return a == nil && b == nil
		}
	case *ssa.Function:
		b, ok := y.(*ssa.Function)
		return ok && a == b
	case *Closure:
		b, ok := y.(*Closure)
		return ok && a == b
	case NativeFn:
		return false
	case iface:
		b, ok := y.(iface)
		if !ok {
			break
		}
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if !types.Identical(a.t, b.t) {
			return false
		}
		return p.equal(a.v, b.v)
	case structure:
		b := y.(structure)
		t := p.tc.T
		for i := range a {
			t = p.tc.And(t, p.boolTerm(p.equal(a[i], b[i])))
		}
		return boolVal(t)
	case array:
		b := y.(array)
		t := p.tc.T
		for i := range a {
			t = p.tc.And(t, p.boolTerm(p.equal(a[i], b[i])))
		}
		return boolVal(t)
	}
	panic(abortPath{fmt.Sprintf("equal on %T, %T", x, y)})
}

// ---------- conversions ----------

func (p *Path) convert(v Value, from, to types.Type, kc kindClass, ik intKind, kc2 kindClass, ik2 intKind) Value {
	switch {
	case kc == kInt && kc2 == kInt:
		switch x := v.(type) {
		case int64:
			return wrapInt(x, ik2)
		case *Term:
			return bvVal(p.tc.Resize(x, ik2.w, ik.signed), ik2)
		case *NumTok, *JTok:
			if ik2.w == 8 {
				return v
			}
			return int64('7')
		}
	case kc == kInt && kc2 == kFloat:
		switch x := v.(type) {
		case int64:
			if p.fp {
				if !ik.signed {
					return float64(uint64(x))
				}
				return float64(x)
			}
			if !ik.signed && x < 0 {
				return rlConst(new(big.Rat).SetInt(new(big.Int).SetUint64(uint64(x))))
			}
			return rlInt(x)
		case *Term:
			if p.fp {
				return fpVal(p.tc.mk(OFFromSBV, SFP, 64, []*Term{x}, 0, "", nil))
			}
			return rlInt(p.concInt(v, ik))
		}
	case kc == kFloat && kc2 == kInt:
		return p.realToInt(v, ik2)
	case kc == kFloat && kc2 == kFloat:
		if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
			return p.toFloat32(v)
		}
		return v
	case kc == kString && kc2 == kString:
		return v
	case kc == kInt && kc2 == kString:
		return string(rune(p.concInt(v, ik)))
	case kc == kBool && kc2 == kBool:
		return v
	}
	if kc == kString {
		if st, ok := to.Underlying().(*types.Slice); ok {
			_, ek := classify(st.Elem())
			if ek.w == 8 {
				return slice(append([]Value{}, strBytes(v)...))
			}
			s, ok := v.(string)
			if !ok {
				panic(abortPath{"[]rune of a symbolic string"})
			}
			var out slice = slice{}
			for _, r := range s {
				out = append(out, int64(r))
			}
			return out
		}
	}
	if kc2 == kString {
		if st, ok := from.Underlying().(*types.Slice); ok {
			_, ek := classify(st.Elem())
			s := v.(slice)
			if ek.w == 8 {
				return mkStr(s)
			}
			var sb strings.Builder
			for _, r := range s {
				sb.WriteRune(rune(p.concInt(r, ek)))
			}
			return sb.String()
		}
	}
	// pointers, unsafe
	return v
}

func (p *Path) typeAssert(in *ssa.TypeAssert, v Value) Value {
	x, ok := v.(iface)
	if !ok {
		panic(abortPath{"type assert on non-interface"})
	}
	okk := false
	var res Value
	if x.t != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			if nt, isN := x.t.(*nativeType); isN {
				okk = true
				for i := 0; i < it.NumMethods(); i++ {
					if _, has := nt.methods[it.Method(i).Name()]; !has {
						okk = false
					}
				}
			} else {
				okk = p.x.eng.implements(x.t, it)
			}
			res = x
		} else if types.Identical(x.t, in.AssertedType) {
			okk = true
			res = copyVal(x.v)
		}
	}
	if !okk {
		if !in.CommaOk {
			p.throw(fmt.Sprintf("interface conversion: interface is %v, not %v", x.t, in.AssertedType))
		}
		res = p.zero(in.AssertedType)
	}
	if in.CommaOk {
		return tuple{res, okk}
	}
	return res
}

func (p *Path) sliceOp(fr *Frame, ci *CI, in *ssa.Slice) Value {
	x := p.get(fr, &ci.ops[0])
	lo, hi, max := int64(0), int64(-1), int64(-1)
	k := 1
	idx := func(v ssa.Value) (int64, bool) {
		// operands: X, Low, High, Max in order (nil operands keep their place)
		o := &ci.ops[k]
		k++
		if v == nil {
			return 0, false
		}
		return p.concInt(p.get(fr, o), intKind{64, true}), true
	}
	if v, ok := idx(in.Low); ok {
		lo = v
	}
	if v, ok := idx(in.High); ok {
		hi = v
	}
	if v, ok := idx(in.Max); ok {
		max = v
	}
	switch s := x.(type) {
	case string:
		if hi < 0 && in.High == nil {
			hi = int64(len(s))
		}
		if lo < 0 || hi > int64(len(s)) || lo > hi {
			p.throw(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		return s[lo:hi]
	case *SymStr:
		if hi < 0 && in.High == nil {
			hi = int64(len(s.b))
		}
		if lo < 0 || hi > int64(len(s.b)) || lo > hi {
			p.throw(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		return mkStr(s.b[lo:hi])
	}
	var base slice
	switch s := x.(type) {
	case slice:
		base = s
	case *Value:
		base = slice((*p.deref(s)).(array))
	default:
		panic(abortPath{fmt.Sprintf("slice of %T", x)})
	}
	if in.High == nil {
		hi = int64(len(base))
	}
	c := int64(cap(base))
	if in.Max == nil {
		max = c
	}
	if lo < 0 || hi < lo || max < hi || max > c {
		p.throw(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, max, c))
	}
	if base == nil {
		return slice(nil)
	}
	return base[lo:hi:max]
}

// ---------- maps ----------

func (p *Path) mapFind(m *MapV, k Value) int {
	for i, kk := range m.keys {
		if p.cond(p.equal(kk, k)) {
			return i
		}
	}
	return -1
}

func (p *Path) mapGet(g *G, fr *Frame, m *MapV, k Value) (Value, bool) {
	if m == nil {
		return nil, false
	}
	if p.sched != nil && p.sched.race {
		p.sched.readObj(g, m, fr)
	}
	i := p.mapFind(m, k)
	if i < 0 {
		return nil, false
	}
	return *m.vals[i], true
}

func (p *Path) mapSet(g *G, fr *Frame, m *MapV, k, v Value) {
	if p.sched != nil && p.sched.race {
		p.sched.writeObj(g, m, fr)
	}
	i := p.mapFind(m, k)
	if i >= 0 {
		*m.vals[i] = copyVal(v)
		return
	}
	nv := copyVal(v)
	m.keys = append(m.keys, copyVal(k))
	m.vals = append(m.vals, &nv)
}

func (p *Path) mapDelete(m *MapV, k Value) {
	if m == nil {
		return
	}
	i := p.mapFind(m, k)
	if i >= 0 {
		m.keys = append(append([]Value{}, m.keys[:i]...), m.keys[i+1:]...)
		m.vals = append(append([]*Value{}, m.vals[:i]...), m.vals[i+1:]...)
	}
}

// ---------- builtins ----------

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int) int {
	for _, c := range sizeClasses {
		if c >= n {
			return c
		}
	}
	return (n + 8191) / 8192 * 8192
}

func growCap(oldCap, newLen, es int) int {
	newcap := oldCap
	double := newcap + newcap
	if newLen > double {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = double
	} else {
		for newcap < newLen {
			newcap += (newcap + 3*256) >> 2
		}
	}
	if es == 0 {
		return newLen
	}
	return roundupsize(newcap*es) / es
}

func (p *Path) appendVals(s slice, vals []Value, et types.Type) slice {
	n := len(s) + len(vals)
	if n <= cap(s) {
		out := s[:n]
		copy(out[len(s):], vals)
		return out
	}
	es := 8
	if et != nil {
		es = int(p.x.eng.sizes.Sizeof(et))
	}
	c := growCap(cap(s), n, es)
	if c < n {
		c = n
	}
	out := make(slice, n, c)
	copy(out, s)
	copy(out[len(s):], vals)
	if et != nil {
		p.fillZero(out[n:c], et)
	}
	return out
}

func (p *Path) builtin(g *G, fr *Frame, b *ssa.Builtin, args []Value, call *ssa.CallCommon) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case slice:
			return int64(len(x))
		case string, *SymStr:
			return int64(strLen(x))
		case *MapV:
			if x == nil {
				return int64(0)
			}
			if p.sched != nil && p.sched.race {
				p.sched.readObj(g, x, fr)
			}
			return int64(len(x.keys))
		case *Chan:
			if x == nil {
				return int64(0)
			}
			return int64(len(x.buf))
		case array:
			return int64(len(x))
		case *Value:
			return int64(len((*x).(array)))
		}
	case "cap":
		switch x := args[0].(type) {
		case slice:
			return int64(cap(x))
		case *Chan:
			return int64(x.cap)
		case array:
			return int64(len(x))
		case *Value:
			return int64(len((*x).(array)))
		}
	case "append":
		s := args[0].(slice)
		var vals []Value
		switch y := args[1].(type) {
		case slice:
			if p.sched != nil && p.sched.race {
				for i := range y {
					p.sched.read(g, &y[i], fr)
				}
			}
			vals = make([]Value, len(y))
			for i := range y {
				vals[i] = copyVal(y[i])
			}
		case string, *SymStr:
			vals = append([]Value(nil), strBytes(y)...)
		}
		if len(vals) == 0 {
			return s
		}
		var et types.Type
		if call != nil {
			et = call.Args[0].Type().Underlying().(*types.Slice).Elem()
		} else if sig, ok := b.Type().(*types.Signature); ok {
			et = sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		}
		r := p.appendVals(s, vals, et)
		if p.sched != nil && p.sched.race {
			for i := len(s); i < len(r); i++ {
				p.sched.write(g, &r[i], fr)
			}
		}
		return r
	case "copy":
		d := args[0].(slice)
		var src []Value
		switch y := args[1].(type) {
		case slice:
			src = y
		case string, *SymStr:
			src = strBytes(y)
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		if p.sched != nil && p.sched.race {
			for i := 0; i < n; i++ {
				p.sched.write(g, &d[i], fr)
			}
			if y, ok := args[1].(slice); ok {
				for i := 0; i < n; i++ {
					p.sched.read(g, &y[i], fr)
				}
			}
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			storeInto(&d[i], tmp[i])
		}
		return int64(n)
	case "delete":
		if p.sched != nil && p.sched.race {
			p.sched.writeObj(g, args[0].(*MapV), fr)
		}
		p.mapDelete(args[0].(*MapV), args[1])
		return nil
	case "close":
		ch := args[0].(*Chan)
		p.visible(g, &pendingOp{kind: opClose, ch: ch})
		return nil
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		// the panicking frame is the caller of the deferred function
		if fr != nil && fr.caller != nil && fr.caller.panicking {
			tp := fr.caller.panicV.(targetPanic)
			fr.caller.panicking = false
			if i, ok := tp.v.(iface); ok {
				return i
			}
			return iface{t: types.Typ[types.String], v: "panic"}
		}
		return iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			kc, ik := classify(call.Args[0].Type())
			var less Value
			switch kc {
			case kInt:
				less = p.intBin(token.LSS, y, r, ik, ik)
			case kFloat:
				less = p.fcmp(OFLt, y, r)
			default:
				less = p.strBin(token.LSS, y, r)
			}
			l := p.cond(less)
			if b.Name() == "max" {
				switch kc {
				case kInt:
					l = p.cond(p.intBin(token.GTR, y, r, ik, ik))
				case kFloat:
					l = p.cond(p.fcmp(OFLt, r, y))
				}
			}
			if l {
				r = y
			}
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				x.keys, x.vals = nil, nil
			}
		case slice:
			et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
			p.fillZero(x, et)
		}
		return nil
	case "ssa:wrapnilchk":
		if a, ok := args[0].(*Value); ok && a == nil {
			p.throw("value method called using nil pointer")
		}
		return args[0]
	case "SliceData": // unsafe
		s := args[0].(slice)
		if cap(s) == 0 {
			return (*Value)(nil)
		}
		return &s[:1][0]
	case "real", "imag", "complex":
		panic(abortPath{"complex numbers"})
	}
	panic(abortPath{fmt.Sprintf("builtin %s on %T", b.Name(), args)})
}

// ---------- globals ----------

func (p *Path) global(gl *ssa.Global) *Value {
	if v, ok := p.globals[gl]; ok {
		return v
	}
	shared := !isTarget(gl.Pkg.Pkg.Path())
	if gl.Pkg.Pkg.Path() == "os" && gl.Name() == "Stdout" { // the harness may replace it
		var z Value = (*Value)(nil)
		p.globals[gl] = &z
		return &z
	}
	if shared {
		if v, ok := p.w.globals[gl]; ok {
			return v
		}
	}
	var z Value = p.zero(gl.Type().Underlying().(*types.Pointer).Elem())
	a := &z
	if shared {
		p.w.globals[gl] = a
	} else {
		p.globals[gl] = a
	}
	p.initPkg(gl.Pkg, shared)
	return a
}

func (p *Path) initPkg(pk *ssa.Package, shared bool) {
	set := p.inited
	if shared {
		set = p.w.inited
	}
	if set[pk] {
		return
	}
	set[pk] = true
	init := pk.Func("init")
	if init == nil || noInit[pk.Pkg.Path()] {
		return
	}
	// run in a separate goroutine context without race tracking
	old := p.sched
	p.sched = nil
	defer func() { p.sched = old }()
	g := &G{id: -1}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case abortPath:
					p.x.noteMsg("init of " + pk.Pkg.Path() + " incomplete: " + e.why)
				case targetPanic:
					p.x.noteMsg("init of " + pk.Pkg.Path() + " panicked")
				default:
					panic(r)
				}
			}
		}()
		p.runInit(g, init)
	}()
}

// runInit executes a package initializer without initializing its imports (they are initialized on demand)
func (p *Path) runInit(g *G, init *ssa.Function) {
	fn := p.x.initFnOf(init)
	fr := &Frame{g: g, fn: fn, env: make([]Value, fn.nslots)}
	p.runFrame(fr)
}

var noInit = map[string]bool{"os": true, "runtime": true, "syscall": true, "time": true, "reflect": true, "net": true, "internal/cpu": true, "internal/godebug": true, "math/rand": true, "unicode": false, "github.com/spf13/cobra": true, "fmt": true, "image/color": true, "gonum.org/v1/plot": true, "gonum.org/v1/plot/plotter": true, "gonum.org/v1/plot/vg": true}

func isNaN(f float64) bool { return math.IsNaN(f) }
