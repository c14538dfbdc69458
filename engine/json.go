package main

import (
	"bytes"
	stdjson "encoding/json"
	"fmt"
	"go/types"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Structural model of encoding/json: a document is a tree whose leaves may be symbolic.
// Numbers survive exactly (encoding/json prints float64 in the shortest form that reads back).

type jKind uint8

const (
	jNull jKind = iota
	jBool
	jNum
	jStr
	jArr
	jObj
)

type JNode struct {
	k    jKind
	v    Value // bool, *Rl/float/Term, int64, string
	kids []*JNode
	keys []string
}

type jsonErr struct{ msg string }

func jsonNatives(m nat) {
	m["encoding/json.Marshal"] = func(p *Path, g *G, a []Value) Value {
		i := a[0].(iface)
		n, err := p.jsonEncode(g, i.t, i.v, false)
		if err != "" {
			return tuple{slice(nil), p.mkError(g, err)}
		}
		return tuple{slice{&JTok{n}}, iface{}}
	}
	m["encoding/json.MarshalIndent"] = m["encoding/json.Marshal"]
	m["encoding/json.Unmarshal"] = func(p *Path, g *G, a []Value) Value {
		n, err := p.jsonParse(sl(a[0]))
		if err != "" {
			return p.mkError(g, err)
		}
		i := a[1].(iface)
		pt, ok := i.t.(*types.Pointer)
		if !ok {
			if i.t != nil {
				pt, ok = i.t.Underlying().(*types.Pointer)
			}
			if !ok {
				return p.mkError(g, "json: Unmarshal(non-pointer)")
			}
		}
		cell := i.v.(*Value)
		if cell == nil {
			return p.mkError(g, "json: Unmarshal(nil)")
		}
		if e := p.jsonDecode(g, n, pt.Elem(), cell); e != nil {
			if e.t != nil {
				return *e
			}
		}
		return iface{}
	}
}

func (p *Path) jsonParse(s slice) (*JNode, string) {
	var tok *JTok
	var raw []byte
	for _, b := range s {
		switch x := b.(type) {
		case *JTok:
			if tok != nil {
				return nil, "invalid character after top-level value"
			}
			tok = x
		case int64:
			raw = append(raw, byte(x))
		default:
			panic(abortPath{"JSON text with symbolic bytes"})
		}
	}
	if tok != nil {
		if len(bytes.TrimSpace(raw)) > 0 {
			return nil, "invalid character in JSON text"
		}
		return tok.doc, ""
	}
	d := stdjson.NewDecoder(bytes.NewReader(raw))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil, err.Error()
	}
	return p.jsonFromGo(v), ""
}

func (p *Path) jsonFromGo(v interface{}) *JNode {
	switch x := v.(type) {
	case nil:
		return &JNode{k: jNull}
	case bool:
		return &JNode{k: jBool, v: x}
	case string:
		return &JNode{k: jStr, v: x}
	case stdjson.Number:
		r, ok := new(big.Rat).SetString(string(x))
		if !ok {
			panic(abortPath{"json number"})
		}
		if p.fp {
			f, _ := r.Float64()
			return &JNode{k: jNum, v: f}
		}
		return &JNode{k: jNum, v: rlConst(r)}
	case []interface{}:
		n := &JNode{k: jArr}
		for _, e := range x {
			n.kids = append(n.kids, p.jsonFromGo(e))
		}
		return n
	case map[string]interface{}:
		n := &JNode{k: jObj}
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			n.keys = append(n.keys, k)
			n.kids = append(n.kids, p.jsonFromGo(x[k]))
		}
		return n
	}
	panic(abortPath{"json value"})
}

func (e *Engine) methodByName(t types.Type, name string) *ssa.Function {
	ms := e.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			e.mu.Lock()
			f := e.prog.MethodValue(ms.At(i))
			e.mu.Unlock()
			return f
		}
	}
	return nil
}

func (e *Engine) hasMethod(t types.Type, name string) bool {
	return e.methodByName(t, name) != nil
}

func (p *Path) callMarshaler(g *G, f *ssa.Function, recv Value) (*JNode, string) {
	r := p.callFn(g, g.top, f, []Value{recv}, nil).(tuple)
	if e := r[1].(iface); e.t != nil {
		t, _ := p.errText(g, e)
		s, _ := t.(string)
		return nil, "json: error calling MarshalJSON: " + s
	}
	return p.jsonParse(sl(r[0]))
}

func (p *Path) jsonEncode(g *G, t types.Type, v Value, addressable bool) (*JNode, string) {
	if t == nil {
		return &JNode{k: jNull}, ""
	}
	e := p.x.eng
	if _, isI := t.Underlying().(*types.Interface); isI {
		i := v.(iface)
		return p.jsonEncode(g, i.t, i.v, false)
	}
	if f := e.methodByName(t, "MarshalJSON"); f != nil {
		if pv, ok := v.(*Value); ok && pv == nil {
			return &JNode{k: jNull}, ""
		}
		return p.callMarshaler(g, f, v)
	}
	if addressable {
		if f := e.methodByName(types.NewPointer(t), "MarshalJSON"); f != nil {
			c := v
			return p.callMarshaler(g, f, &c)
		}
	}
	if e.hasMethod(t, "MarshalText") {
		panic(abortPath{"MarshalText"})
	}
	kc, _ := classify(t)
	switch kc {
	case kBool:
		return &JNode{k: jBool, v: v}, ""
	case kInt:
		return &JNode{k: jNum, v: v}, ""
	case kString:
		return &JNode{k: jStr, v: v}, ""
	case kFloat:
		switch x := v.(type) {
		case float64:
			if math.IsNaN(x) || math.IsInf(x, 0) {
				return nil, fmt.Sprintf("json: unsupported value: %v", x)
			}
		case *Term:
			bad := p.tc.Or(p.tc.FIsNaN(x), p.tc.FCmp(OFEq, x, p.tc.fpC(math.Inf(1))), p.tc.FCmp(OFEq, x, p.tc.fpC(math.Inf(-1))))
			if p.decide(bad) {
				return nil, "json: unsupported value"
			}
		}
		return &JNode{k: jNum, v: v}, ""
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		c := v.(*Value)
		if c == nil {
			return &JNode{k: jNull}, ""
		}
		return p.jsonEncode(g, u.Elem(), *c, true)
	case *types.Slice:
		s := sl(v)
		if s == nil {
			return &JNode{k: jNull}, ""
		}
		if _, ik := classify(u.Elem()); ik.w == 8 {
			panic(abortPath{"json of bytes"})
		}
		n := &JNode{k: jArr}
		for i := range s {
			k, err := p.jsonEncode(g, u.Elem(), s[i], true)
			if err != "" {
				return nil, err
			}
			n.kids = append(n.kids, k)
		}
		return n, ""
	case *types.Array:
		n := &JNode{k: jArr}
		for _, x := range v.(array) {
			k, err := p.jsonEncode(g, u.Elem(), x, addressable)
			if err != "" {
				return nil, err
			}
			n.kids = append(n.kids, k)
		}
		return n, ""
	case *types.Map:
		m := v.(*MapV)
		if m == nil {
			return &JNode{k: jNull}, ""
		}
		n := &JNode{k: jObj}
		type kv struct {
			k string
			v Value
		}
		var kvs []kv
		for i, k := range m.keys {
			ks := ""
			switch x := k.(type) {
			case string:
				ks = x
			case int64:
				ks = fmt.Sprint(x)
			default:
				panic(abortPath{"json map key"})
			}
			kvs = append(kvs, kv{ks, *m.vals[i]})
		}
		sort.Slice(kvs, func(i, j int) bool { return kvs[i].k < kvs[j].k })
		for _, x := range kvs {
			k, err := p.jsonEncode(g, u.Elem(), x.v, false)
			if err != "" {
				return nil, err
			}
			n.keys = append(n.keys, x.k)
			n.kids = append(n.kids, k)
		}
		return n, ""
	case *types.Struct:
		n := &JNode{k: jObj}
		err := p.jsonStruct(g, n, u, v.(structure), addressable)
		return n, err
	case *types.Chan, *types.Signature:
		return nil, "json: unsupported type: " + t.String()
	}
	panic(abortPath{"json of " + t.String()})
}

func jsonTag(u *types.Struct, i int) (name string, omit, asStr, skip bool) {
	f := u.Field(i)
	tag := reflect.StructTag(u.Tag(i)).Get("json")
	if tag == "-" {
		return "", false, false, true
	}
	parts := strings.Split(tag, ",")
	name = parts[0]
	for _, o := range parts[1:] {
		if o == "omitempty" || o == "omitzero" {
			omit = true
		}
		if o == "string" {
			asStr = true
		}
	}
	if name == "" {
		name = f.Name()
	}
	if !f.Exported() && !f.Embedded() {
		skip = true
	}
	return
}

func (p *Path) jsonStruct(g *G, n *JNode, u *types.Struct, s structure, addressable bool) string {
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		name, omit, asStr, skip := jsonTag(u, i)
		if skip {
			continue
		}
		if asStr {
			panic(abortPath{"json string option"})
		}
		if f.Embedded() && reflect.StructTag(u.Tag(i)).Get("json") == "" {
			if es, ok := f.Type().Underlying().(*types.Struct); ok && p.x.eng.methodByName(f.Type(), "MarshalJSON") == nil {
				if e := p.jsonStruct(g, n, es, s[i].(structure), addressable); e != "" {
					return e
				}
				continue
			}
			if !f.Exported() {
				continue
			}
		}
		if omit && p.jsonEmpty(s[i]) {
			continue
		}
		k, err := p.jsonEncode(g, f.Type(), s[i], addressable)
		if err != "" {
			return err
		}
		n.keys = append(n.keys, name)
		n.kids = append(n.kids, k)
	}
	return ""
}

func (p *Path) jsonEmpty(v Value) bool {
	switch x := v.(type) {
	case bool:
		return !x
	case int64:
		return x == 0
	case string:
		return x == ""
	case slice:
		return len(x) == 0
	case *MapV:
		return x == nil || len(x.keys) == 0
	case *Value:
		return x == nil
	case iface:
		return x.t == nil
	case *Rl, float64:
		return p.cond(p.fcmp(OFEq, v, p.zeroF()))
	case *Term:
		if x.sort == SFP {
			return p.cond(p.fcmp(OFEq, v, p.zeroF()))
		}
		if x.sort == SBool {
			return !p.decide(x)
		}
		return p.decide(p.tc.Eq(x, p.tc.bvC(0, x.w)))
	}
	return false
}

// jsonDecode stores n into *cell of type t; returns an error interface (t==nil: none)
func (p *Path) jsonDecode(g *G, n *JNode, t types.Type, cell *Value) *iface {
	e := p.x.eng
	fail := func(msg string) *iface {
		r := p.mkError(g, msg).(iface)
		return &r
	}
	if u, ok := t.Underlying().(*types.Pointer); ok {
		if n.k == jNull {
			*cell = (*Value)(nil)
			return nil
		}
		c := (*cell).(*Value)
		if c == nil {
			z := p.zero(u.Elem())
			c = &z
			*cell = c
		}
		return p.jsonDecode(g, n, u.Elem(), c)
	}
	if f := e.methodByName(types.NewPointer(t), "UnmarshalJSON"); f != nil {
		r := p.callFn(g, g.top, f, []Value{cell, slice{&JTok{n}}}, nil).(iface)
		if r.t != nil {
			return &r
		}
		return nil
	}
	mismatch := func() *iface {
		return fail("json: cannot unmarshal into Go value of type " + t.String())
	}
	kc, ik := classify(t)
	switch kc {
	case kBool, kInt, kFloat, kString:
		if n.k == jNull {
			return nil
		}
	}
	switch kc {
	case kBool:
		if n.k != jBool {
			return mismatch()
		}
		*cell = n.v
		return nil
	case kString:
		if n.k != jStr {
			return mismatch()
		}
		*cell = n.v
		return nil
	case kInt:
		if n.k != jNum {
			return mismatch()
		}
		switch x := n.v.(type) {
		case int64:
			if wrapInt(x, ik) != x {
				return mismatch()
			}
			*cell = x
		case *Rl:
			if !x.isConst() || !x.constVal().IsInt() || !x.constVal().Num().IsInt64() {
				if !x.isConst() {
					panic(abortPath{"json symbolic real into int"})
				}
				return mismatch()
			}
			*cell = x.constVal().Num().Int64()
		case *Term:
			if x.sort == SFP || x.w != ik.w {
				panic(abortPath{"json number into int"})
			}
			*cell = x
		default:
			return mismatch()
		}
		return nil
	case kFloat:
		if n.k != jNum {
			return mismatch()
		}
		switch x := n.v.(type) {
		case int64:
			*cell = p.fl(float64(x))
		case *Term:
			if x.sort != SFP {
				panic(abortPath{"json symbolic int into float"})
			}
			*cell = x
		default:
			*cell = n.v
		}
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if n.k == jNull {
			*cell = iface{}
			return nil
		}
		panic(abortPath{"json into interface"})
	case *types.Slice:
		if n.k == jNull {
			*cell = slice(nil)
			return nil
		}
		if n.k != jArr {
			return mismatch()
		}
		s := make(slice, len(n.kids))
		p.fillZero(s, u.Elem())
		for i, k := range n.kids {
			if r := p.jsonDecode(g, k, u.Elem(), &s[i]); r != nil {
				return r
			}
		}
		*cell = s
		return nil
	case *types.Array:
		if n.k == jNull {
			return nil
		}
		if n.k != jArr {
			return mismatch()
		}
		a := (*cell).(array)
		for i := range a {
			if i < len(n.kids) {
				if r := p.jsonDecode(g, n.kids[i], u.Elem(), &a[i]); r != nil {
					return r
				}
			} else {
				a[i] = p.zero(u.Elem())
			}
		}
		return nil
	case *types.Map:
		if n.k == jNull {
			*cell = (*MapV)(nil)
			return nil
		}
		if n.k != jObj {
			return mismatch()
		}
		m := (*cell).(*MapV)
		if m == nil {
			m = &MapV{kt: u.Key()}
			*cell = m
		}
		for i, k := range n.keys {
			var v Value = p.zero(u.Elem())
			if r := p.jsonDecode(g, n.kids[i], u.Elem(), &v); r != nil {
				return r
			}
			var key Value = k
			if c, _ := classify(u.Key()); c == kInt {
				var x int64
				fmt.Sscan(k, &x)
				key = x
			}
			p.mapSet(g, g.top, m, key, v)
		}
		return nil
	case *types.Struct:
		if n.k == jNull {
			return nil
		}
		if n.k != jObj {
			return mismatch()
		}
		s := (*cell).(structure)
		for i, k := range n.keys {
			ft, fc := p.jsonField(u, s, k)
			if fc == nil {
				continue
			}
			if r := p.jsonDecode(g, n.kids[i], ft, fc); r != nil {
				return r
			}
		}
		return nil
	}
	panic(abortPath{"json into " + t.String()})
}

func (p *Path) jsonField(u *types.Struct, s structure, key string) (types.Type, *Value) {
	for pass := 0; pass < 2; pass++ {
		for i := 0; i < u.NumFields(); i++ {
			name, _, _, skip := jsonTag(u, i)
			if skip {
				continue
			}
			f := u.Field(i)
			if f.Embedded() && reflect.StructTag(u.Tag(i)).Get("json") == "" {
				if es, ok := f.Type().Underlying().(*types.Struct); ok {
					if t, c := p.jsonField(es, s[i].(structure), key); c != nil {
						return t, c
					}
					continue
				}
			}
			if !f.Exported() {
				continue
			}
			if name == key || (pass == 1 && strings.EqualFold(name, key)) {
				return f.Type(), &s[i]
			}
		}
	}
	return nil, nil
}
