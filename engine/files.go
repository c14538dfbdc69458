package main

import (
	"go/types"
	"strconv"
	"strings"
)

// In-memory files: os.Open, Create, ReadFile, WriteFile and the methods of os.File on a map from (concrete) names to
// contents. Bytes may be symbolic.

type memFile struct{ data []Value }

// fits gives the part of b that is stored at pos. A JSON document is taken to be longer than 20 and shorter than
// 100000 bytes.
func (p *Path) fits(b []Value, pos int) ([]Value, bool) {
	if p.fileLimit == nil || *p.fileLimit >= 100000 {
		return b, true
	}
	room := max(0, *p.fileLimit-pos)
	for _, x := range b {
		switch x.(type) {
		case *NumTok:
			panic(abortPath{"symbolic number text in a file of limited size"})
		case *JTok:
			if room > 20 {
				panic(abortPath{"file size limit near the size of a document"})
			}
			if room == 0 {
				return nil, false
			}
			return []Value{int64('{')}, false
		}
	}
	if room < len(b) {
		return b[:room], false
	}
	return b, true
}

// fileOp counts an operation that changes files: 0 carry it out, 1 the process dies in it (files are created or cut, but
// nothing is written, renamed or removed), 2 it died before
func (p *Path) fileOp() int {
	if p.fileDeath == nil {
		return 0
	}
	k := *p.fileDeath
	if k < 0 {
		return 2
	}
	*p.fileDeath--
	if k == 0 {
		zero := 0
		p.fileLimit = &zero
		return 1
	}
	return 0
}

type fileHandle struct {
	f      *memFile
	name   string
	pos    int
	write  bool
	read   bool
	closed bool
}

func (p *Path) fs() map[string]*memFile {
	if p.files == nil {
		p.files = map[string]*memFile{}
		p.handles = map[*Value]*fileHandle{}
	}
	return p.files
}

func fileNatives(m nat) {
	fname := func(v Value) string {
		s, ok := v.(string)
		if !ok {
			panic(abortPath{"symbolic file name"})
		}
		return s
	}
	open := func(p *Path, name string, read, write, create, trunc bool) *Value {
		fs := p.fs()
		if write && p.fileOp() == 2 {
			return nil
		}
		f := fs[name]
		if f == nil {
			if !create {
				return nil
			}
			f = &memFile{}
			fs[name] = f
		}
		if trunc {
			f.data = nil
		}
		var v Value = structure{(*Value)(nil)}
		p.handles[&v] = &fileHandle{f: f, name: name, read: read, write: write}
		return &v
	}
	ret := func(p *Path, g *G, h *Value) Value {
		if h == nil {
			return tuple{(*Value)(nil), p.mkError(g, "open: no such file or directory")}
		}
		return tuple{h, iface{}}
	}
	m["os.Open"] = func(p *Path, g *G, a []Value) Value { return ret(p, g, open(p, fname(a[0]), true, false, false, false)) }
	m["os.Create"] = func(p *Path, g *G, a []Value) Value { return ret(p, g, open(p, fname(a[0]), true, true, true, true)) }
	m["os.OpenFile"] = func(p *Path, g *G, a []Value) Value {
		fl := p.num(a[1])
		h := open(p, fname(a[0]), fl&3 != 1, fl&3 != 0, fl&0x40 != 0, fl&0x200 != 0)
		if h != nil && fl&0x400 != 0 {
			p.handles[h].pos = len(p.handles[h].f.data)
		}
		return ret(p, g, h)
	}
	handle := func(p *Path, v Value) *fileHandle {
		h, _ := v.(*Value)
		p.fs()
		if fh := p.handles[h]; fh != nil {
			return fh
		}
		return nil
	}
	bad := func(p *Path, g *G) Value { return p.mkError(g, "invalid argument") }
	m["(*os.File).Close"] = func(p *Path, g *G, a []Value) Value {
		h := handle(p, a[0])
		if h == nil || h.closed {
			return bad(p, g)
		}
		h.closed = true
		return iface{}
	}
	m["(*os.File).Sync"] = func(p *Path, g *G, a []Value) Value { return iface{} }
	m["(*os.File).Name"] = func(p *Path, g *G, a []Value) Value { return handle(p, a[0]).name }
	m["(*os.File).Read"] = func(p *Path, g *G, a []Value) Value {
		h := handle(p, a[0])
		if h == nil || h.closed || !h.read {
			return tuple{int64(0), bad(p, g)}
		}
		b := sl(a[1])
		if len(b) > 0 && h.pos >= len(h.f.data) {
			return tuple{int64(0), *p.global(p.x.eng.prog.ImportedPackage("io").Var("EOF"))}
		}
		n := copy(b, h.f.data[h.pos:])
		h.pos += n
		return tuple{int64(n), iface{}}
	}
	write := func(p *Path, g *G, h *fileHandle, b []Value) Value {
		if h == nil || h.closed || !h.write {
			return tuple{int64(0), bad(p, g)}
		}
		b, all := p.fits(b, h.pos)
		d := append([]Value(nil), h.f.data[:min(h.pos, len(h.f.data))]...)
		d = append(d, b...)
		if h.pos+len(b) < len(h.f.data) {
			d = append(d, h.f.data[h.pos+len(b):]...)
		}
		h.f.data = d
		h.pos += len(b)
		if !all {
			return tuple{int64(len(b)), p.mkError(g, "file too large")}
		}
		return tuple{int64(len(b)), iface{}}
	}
	m["(*os.File).Write"] = func(p *Path, g *G, a []Value) Value {
		if handle(p, a[0]) == nil { // standard output
			return tuple{int64(len(sl(a[1]))), iface{}}
		}
		return write(p, g, handle(p, a[0]), sl(a[1]))
	}
	wf := func(p *Path, g *G, a []Value) Value {
		if p.fileOp() == 2 {
			return p.mkError(g, "dead")
		}
		b, all := p.fits(sl(a[1]), 0)
		f := p.fs()[fname(a[0])]
		if f == nil {
			f = &memFile{}
			p.fs()[fname(a[0])] = f
		}
		f.data = append([]Value(nil), b...)
		if !all {
			return p.mkError(g, "file too large")
		}
		return iface{}
	}
	stat := func(p *Path, g *G, a []Value) Value {
		if p.fs()[fname(a[0])] == nil {
			return tuple{iface{}, p.mkError(g, "stat: no such file or directory")}
		}
		t := p.x.eng.prog.ImportedPackage("os").Type("fileStat").Type()
		v := p.zero(t)
		return tuple{iface{types.NewPointer(t), &v}, iface{}}
	}
	m["os.Stat"] = stat
	m["os.Lstat"] = stat
	m["io/ioutil.WriteFile"] = wf
	m["os.WriteFile"] = wf
	rf := func(p *Path, g *G, a []Value) Value {
		f := p.fs()[fname(a[0])]
		if f == nil {
			return tuple{slice(nil), p.mkError(g, "open: no such file or directory")}
		}
		return tuple{append(slice(nil), f.data...), iface{}}
	}
	m["io/ioutil.ReadFile"] = rf
	m["os.ReadFile"] = rf
	m["os.Remove"] = func(p *Path, g *G, a []Value) Value {
		if p.fileOp() != 0 {
			return p.mkError(g, "dead")
		}
		if p.fs()[fname(a[0])] == nil {
			return p.mkError(g, "remove: no such file or directory")
		}
		delete(p.fs(), fname(a[0]))
		return iface{}
	}
	m["os.Rename"] = func(p *Path, g *G, a []Value) Value {
		if p.fileOp() != 0 {
			return p.mkError(g, "dead")
		}
		f := p.fs()[fname(a[0])]
		if f == nil {
			return p.mkError(g, "rename: no such file or directory")
		}
		delete(p.fs(), fname(a[0]))
		p.fs()[fname(a[1])] = f
		return iface{}
	}
	temp := func(p *Path, g *G, a []Value) Value {
		dir, pat := fname(a[0]), fname(a[1])
		if dir != "" {
			dir += "/"
		}
		for i := 0; ; i++ {
			n := dir + pat + strconv.Itoa(i)
			if j := strings.LastIndexByte(pat, '*'); j >= 0 {
				n = dir + pat[:j] + strconv.Itoa(i) + pat[j+1:]
			}
			if p.fs()[n] == nil {
				return ret(p, g, open(p, n, true, true, true, true))
			}
		}
	}
	m["io/ioutil.TempFile"] = temp
	m["os.CreateTemp"] = temp
	m["(*os.File).WriteString"] = func(p *Path, g *G, a []Value) Value {
		return write(p, g, handle(p, a[0]), strBytes(a[1]))
	}
}
