package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strconv"
)

const intrPkg = "github.com/davidkleiven/goselect/featselect."

func intrinsics(m nat) {
	reg := func(n string, f NativeFn) {
		m[intrPkg+n] = f
		m[cmdPkg+"."+n] = f
		m[progPkg+"."+n] = f
	}
	reg("vFileLimit", func(p *Path, g *G, a []Value) Value {
		p.fileLimit = nil
		if n := int(p.num(a[0])); n >= 0 {
			p.fileLimit = &n
		}
		return nil
	})
	reg("vFileDeath", func(p *Path, g *G, a []Value) Value {
		p.fileDeath, p.fileLimit = nil, nil
		if n := int(p.num(a[0])); n >= 0 {
			p.fileDeath = &n
		}
		return nil
	})
	reg("vhPlotted", func(p *Path, g *G, a []Value) Value { // lib_plot.go
		t := p.x.eng.prog.ImportedPackage("gonum.org/v1/plot").Type("Plot").Type().Underlying().(*types.Struct)
		s := (*a[0].(*Value)).(structure)
		for i := 0; i < t.NumFields(); i++ {
			if t.Field(i).Name() == "plotters" {
				return s[i]
			}
		}
		panic(abortPath{"no plotters"})
	})
	reg("vBool", func(p *Path, g *G, a []Value) Value {
		t := p.tc.newVar(fmt.Sprintf("in%d", len(p.inputs)), SBool, 0)
		p.inputs = append(p.inputs, &Input{kind: "bool", t: t})
		p.setBV(int(t.val), 0)
		return t
	})
	reg("vPick", func(p *Path, g *G, a []Value) Value {
		lo, hi := p.num(a[0]), p.num(a[1])
		k := lo + p.choose(hi-lo+1)
		p.inputs = append(p.inputs, &Input{kind: "int", ival: int64(k)})
		return int64(k)
	})
	reg("vInt", func(p *Path, g *G, a []Value) Value {
		return p.newBV("int", 64, int64(p.num(a[0])), int64(p.num(a[1])))
	})
	reg("vI64", func(p *Path, g *G, a []Value) Value {
		return p.newBV("int", 64, math.MinInt64, math.MaxInt64)
	})
	reg("vByte", func(p *Path, g *G, a []Value) Value {
		return p.newBV("byte", 8, math.MinInt64, math.MaxInt64)
	})
	reg("vFloat", func(p *Path, g *G, a []Value) Value {
		lo, _ := concreteFloat(a[0])
		hi, _ := concreteFloat(a[1])
		if p.fp {
			t := p.newFP("fp")
			p.addPC(p.tc.FCmp(OFLe, p.tc.fpC(lo), t))
			p.addPC(p.tc.FCmp(OFLe, t, p.tc.fpC(hi)))
			p.model = nil
			return t
		}
		return p.newReal("real", lo, hi)
	})
	reg("vReal", func(p *Path, g *G, a []Value) Value {
		if p.fp {
			t := p.newFP("fp")
			p.addPC(p.tc.FCmp(OFLe, p.tc.fpC(-math.MaxFloat64), t))
			p.addPC(p.tc.FCmp(OFLe, t, p.tc.fpC(math.MaxFloat64)))
			p.model = nil
			return t
		}
		return p.newReal("real", -1e12, 1e12)
	})
	reg("vFloatAny", func(p *Path, g *G, a []Value) Value {
		if !p.fp {
			// a real number or one of the special values
			switch p.choose(4) {
			case 1:
				p.inputs = append(p.inputs, &Input{kind: "spec", ival: int64(math.Float64bits(math.NaN()))})
				return math.NaN()
			case 2:
				p.inputs = append(p.inputs, &Input{kind: "spec", ival: int64(math.Float64bits(math.Inf(1)))})
				return math.Inf(1)
			case 3:
				p.inputs = append(p.inputs, &Input{kind: "spec", ival: math.MinInt64 | int64(math.Float64bits(math.Inf(1)))})
				return math.Inf(-1)
			}
			return p.newReal("real", math.Inf(-1), math.Inf(1))
		}
		return p.newFP("fp")
	})
	reg("vNumText", func(p *Path, g *G, a []Value) Value {
		lo, _ := concreteFloat(a[0])
		hi, _ := concreteFloat(a[1])
		r := p.newReal("real", lo, hi)
		return &SymStr{[]Value{&NumTok{v: r, txt: len(p.inputs) - 1}}}
	})
	reg("vNumVal", func(p *Path, g *G, a []Value) Value { // value of a text made by vNumText
		if s, ok := a[0].(*SymStr); ok && len(s.b) == 1 {
			if t, ok := s.b[0].(*NumTok); ok {
				return t.v
			}
		}
		f, _ := strconv.ParseFloat(str(a[0]), 64)
		return p.fl(f)
	})
	reg("vAssume", func(p *Path, g *G, a []Value) Value {
		if !p.cond(a[0]) {
			panic(endPath{})
		}
		return nil
	})
	reg("vAssert", func(p *Path, g *G, a []Value) Value {
		p.assert(p.boolTerm(a[0]), str(a[1]), nil)
		return nil
	})
	reg("vEq", func(p *Path, g *G, a []Value) Value { p.assertRel(OFEq, a[0], a[1], str(a[2])); return nil })
	reg("vLe", func(p *Path, g *G, a []Value) Value { p.assertRel(OFLe, a[0], a[1], str(a[2])); return nil })
	reg("vNear", func(p *Path, g *G, a []Value) Value {
		tol := a[2]
		d := p.fsub(a[0], a[1])
		if f, ok := d.(float64); ok && !p.fp {
			p.assert(p.tc.boolC(math.Abs(f) == 0), str(a[3]), nil)
			return nil
		}
		p.assertRel(OFLe, d, tol, str(a[3]))
		p.assertRel(OFLe, p.fneg(d), tol, str(a[3]))
		return nil
	})
	reg("vReach", func(p *Path, g *G, a []Value) Value { p.reached[str(a[0])] = true; return nil })
	reg("vObs", func(p *Path, g *G, a []Value) Value {
		for _, x := range sl(a[1]) {
			p.obs = append(p.obs, Obs{str(a[0]), x.(iface).v})
		}
		return nil
	})
	reg("vObsF", func(p *Path, g *G, a []Value) Value {
		p.obs = append(p.obs, Obs{str(a[0]), a[1]})
		return nil
	})
	reg("vTier", func(p *Path, g *G, a []Value) Value { return int64(p.x.tier) })
	reg("vNative", func(p *Path, g *G, a []Value) Value { return false })
	reg("vSVD", func(p *Path, g *G, a []Value) Value {
		M, N, K := p.num(a[0]), p.num(a[1]), p.num(a[2])
		cp := func(v Value) []Value { return append([]Value(nil), sl(v)...) }
		e := &svdEntry{m: M, n: N, a: cp(a[3]), u: cp(a[4]), s: cp(a[5]), v: cp(a[6])}
		if len(e.a) != M*N || len(e.u) != M*K || len(e.s) != K || len(e.v) != N*K {
			panic(abortPath{"vSVD dimensions"})
		}
		p.svds = append(p.svds, e)
		return nil
	})
	// vPair: numbers a_0..: splits on the sign of a comparison without an assertion
	reg("vSqrt", func(p *Path, g *G, a []Value) Value { return p.fsqrt(a[0]) })
}

func (p *Path) newFP(kind string) *Term {
	t := p.tc.newVar(fmt.Sprintf("in%d", len(p.inputs)), SFP, 64)
	p.inputs = append(p.inputs, &Input{kind: kind, t: t})
	p.setBV(int(t.val), math.Float64bits(0.5))
	return t
}

func (p *Path) assertRel(op Op, a, b Value, msg string) {
	if p.fp {
		c := p.boolTerm(p.fcmp(op, a, b))
		p.assert(c, msg, nil)
		return
	}
	x, fx, ok := p.real(a)
	y, fy, ok2 := p.real(b)
	if !ok || !ok2 {
		var holds bool
		switch {
		case math.IsNaN(fx) || math.IsNaN(fy):
			holds = op == OFEq && !ok && !ok2 && math.IsNaN(fx) && math.IsNaN(fy)
		default:
			holds = p.cond(p.fcmp(op, a, b))
		}
		p.assert(p.tc.boolC(holds), msg, nil)
		return
	}
	c := p.realRel(op, x, y)
	strong := func(gap *big.Rat) *Term { // a clear violation
		d := p.rc.sub(x, y)
		k := p.rc.facMul(polyConst(gap), d.den)
		up := p.tc.polyRel(OPLt0, polySub(k, d.num)) // d > gap
		if op == OFLe {
			return up
		}
		dn := p.tc.polyRel(OPLt0, polyAdd(k, d.num)) // d < -gap
		return p.tc.Or(up, dn)
	}
	p.assert(c, msg, strong)
}

// assert checks c under the path condition
func (p *Path) assert(c *Term, msg string, strong func(*big.Rat) *Term) {
	if c.isConst() && c.val == 1 || p.pcSeen[c.id] {
		p.trivial++
		return
	}
	if p.pos < len(p.prefix) { // replaying a prefix: already checked by the path that pushed it
		p.addPC(c)
		return
	}
	nc := p.tc.Not(c)
	if c.isConst() {
		if p.feasible() {
			p.violation("assert", msg, nil, nil)
		}
		panic(endPath{})
	}
	res, m := p.query([]*Term{nc}, true)
	switch res {
	case Unsat:
		p.discharged++
		p.addPC(c)
		return
	case Unknown:
		p.x.addUndecided(msg)
		p.addPC(c)
		return
	}
	mm := m
	if p.model != nil && m != nil {
		mm = mergeModels(p.model, m)
	}
	p.violation("assert", msg, []*Term{nc}, strong, mm)
	// continue where the assertion holds
	if v, ok := p.evalModel(c); ok && v {
		p.addPC(c)
		return
	}
	r2, m2 := p.query([]*Term{c}, true)
	if r2 == Unsat {
		panic(endPath{})
	}
	p.addPC(c)
	if m2 != nil && p.model != nil {
		p.model = mergeModels(p.model, m2)
	} else {
		p.model = nil
	}
}

// feasible checks the whole path condition if the path took an undecided branch
func (p *Path) feasible() bool {
	if p.model != nil && !p.uncertain {
		return true
	}
	res, m := p.queryAll(nil)
	if res == Sat {
		if m != nil {
			p.model = m
		}
		return true
	}
	if res == Unknown {
		p.x.addUndecided("feasibility of a failing path")
	}
	return false
}

// queryAll checks the complete path condition together with extra terms
func (p *Path) queryAll(extra []*Term) (SatRes, *Model) {
	cs := append(append([]*Term(nil), p.pc...), extra...)
	if len(cs) == 0 {
		return Sat, newModel()
	}
	return p.queryRaw(cs)
}

func (p *Path) queryRaw(live []*Term) (SatRes, *Model) {
	for _, c := range live {
		if c == p.tc.F {
			return Unsat, nil
		}
	}
	save, saveSeen := p.pc, p.pcSeen
	p.pc, p.pcSeen = nil, map[int]bool{}
	defer func() { p.pc, p.pcSeen = save, saveSeen }()
	return p.query(live, true)
}
