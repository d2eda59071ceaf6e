package main

import (
	"fmt"
	"go/types"
)

// Models of the standard library's encoders of fixed-width integers: another
// way to say what the repository does with pointer casts.
func init() {
	dm := defaultModels
	uints := map[string]types.Type{"16": types.Typ[types.Uint16], "32": types.Typ[types.Uint32], "64": types.Typ[types.Uint64]}
	width := map[string]int64{"16": 2, "32": 4, "64": 8}
	for _, ord := range []string{"littleEndian", "nativeEndian"} {
		pfx := "(encoding/binary." + ord + ")."
		for n, t := range uints {
			t, w := t, width[n]
			dm[pfx+"Uint"+n] = func(c *Call) ([]Outcome, bool) {
				b := c.Args[0]
				c.e.oblige(c.fr, &PS{st: c.st}, "index", c.Instr, ltT(intConst(w-1, tyInt), lenT(b)))
				if b.Op == "nil" || isString(b.Typ) {
					return c.ret(decode(subBytes(c.st.sliceBytes(b), intConst(0, tyInt), intConst(w, tyInt)), w, t))
				}
				r, o := byteBase(b)
				return c.ret(decode(c.st.readBytes(r, o, intConst(w, tyInt)), w, t))
			}
			dm[pfx+"PutUint"+n] = func(c *Call) ([]Outcome, bool) {
				b, v := c.Args[0], c.Args[1]
				c.e.oblige(c.fr, &PS{st: c.st}, "index", c.Instr, ltT(intConst(w-1, tyInt), lenT(b)))
				r, o := byteBase(b)
				if rootOf(r).Op == "s2b" || r.Op == "s2b" {
					return nil, false
				}
				c.st.writeBytes(r, o, intConst(w, tyInt), encode(v, w))
				return c.ret()
			}
			dm[pfx+"AppendUint"+n] = func(c *Call) ([]Outcome, bool) {
				b, v := c.Args[0], c.Args[1]
				tmp := mk("alloc", fmt.Sprintf("binary%s#%d", n, c.st.step(c.Instr, 3)), types.NewPointer(types.NewArray(types.Typ[types.Uint8], w)))
				c.st.writeBytes(tmp, intConst(0, tyInt), intConst(w, tyInt), encode(v, w))
				more := mk("slice", "", c.resT(0), tmp, intConst(0, tyInt), intConst(w, tyInt), intConst(w, tyInt))
				return c.ret(c.e.appendT(c.fr, c.st, c.Instr, []*Term{b, more}, c.resT(0)))
			}
		}
	}
	little := func(t *Term) bool {
		for t.Op == "makeiface" || t.Op == "chiface" {
			t = t.Args[0]
		}
		s := tstr(t.Typ)
		return s == "encoding/binary.littleEndian" || s == "encoding/binary.nativeEndian"
	}
	dm["encoding/binary.Write"] = func(c *Call) ([]Outcome, bool) {
		v := c.Args[2]
		if v.Op != "makeiface" || !little(c.Args[1]) {
			return nil, false
		}
		v = v.Args[0]
		t := v.Typ
		if p, ok := under(t).(*types.Pointer); ok {
			v, t = c.st.load(v, p.Elem()), p.Elem()
		}
		w := sizeOf(t)
		if w == 0 {
			return nil, false
		}
		tmp := mk("alloc", fmt.Sprintf("binary#%d", c.st.step(c.Instr, 3)), types.NewPointer(types.NewArray(types.Typ[types.Uint8], w)))
		c.st.writeBytes(tmp, intConst(0, tyInt), intConst(w, tyInt), encode(v, w))
		buf := mk("slice", "", types.NewSlice(types.Typ[types.Uint8]), tmp, intConst(0, tyInt), intConst(w, tyInt), intConst(w, tyInt))
		nv := []*types.Var{types.NewVar(0, nil, "", tyInt), types.NewVar(0, nil, "", errTyp)}
		c2 := *c
		c2.Name, c2.Method, c2.Fn, c2.Recv = "(io.Writer).Write", "Write", nil, c.Args[0]
		c2.Args, c2.All = []*Term{buf}, []*Term{c.Args[0], buf}
		c2.Sig = types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(nv...), false)
		os := c.e.external(&c2)
		for i := range os {
			if len(os[i].Vals) == 2 {
				os[i].Vals = os[i].Vals[1:]
			}
		}
		return os, true
	}
	dm["encoding/binary.Read"] = func(c *Call) ([]Outcome, bool) {
		p := c.Args[2]
		if p.Op != "makeiface" || !little(c.Args[1]) {
			return nil, false
		}
		p = p.Args[0]
		pt, ok := under(p.Typ).(*types.Pointer)
		if !ok {
			return nil, false
		}
		w := sizeOf(pt.Elem())
		if w == 0 {
			return nil, false
		}
		tmp := mk("alloc", fmt.Sprintf("binary#%d", c.st.step(c.Instr, 3)), types.NewPointer(types.NewArray(types.Typ[types.Uint8], w)))
		buf := mk("slice", "", types.NewSlice(types.Typ[types.Uint8]), tmp, intConst(0, tyInt), intConst(w, tyInt), intConst(w, tyInt))
		nv := []*types.Var{types.NewVar(0, nil, "", tyInt), types.NewVar(0, nil, "", errTyp)}
		c2 := *c
		c2.Name, c2.Method, c2.Fn, c2.Recv = "io.ReadFull", "ReadFull", nil, nil
		c2.Args = []*Term{c.Args[0], buf}
		c2.All = c2.Args
		c2.Sig = types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(nv...), false)
		os := c.e.external(&c2)
		for i := range os {
			if len(os[i].Vals) == 2 {
				if mustNil(os[i].St, os[i].Vals[1]) { // nothing is stored on a failure
					os[i].St.store(p, decode(os[i].St.readBytes(tmp, intConst(0, tyInt), intConst(w, tyInt)), w, pt.Elem()), pt.Elem())
				}
				os[i].Vals = os[i].Vals[1:]
			}
		}
		return os, true
	}
	for n, w := range map[string]int64{"32": 4, "64": 8} {
		w, n := w, n
		dm["math.Float"+n+"bits"] = func(c *Call) ([]Outcome, bool) { return c.ret(floatBits(c.Args[0], w, c.resT(0))) }
		dm["math.Float"+n+"frombits"] = func(c *Call) ([]Outcome, bool) {
			x := c.Args[0]
			for x.Op == "conv" && sizeOf(x.Typ) == w && sizeOf(x.Args[0].Typ) == w {
				x = x.Args[0]
			}
			if x.Op == "fbits" {
				return c.ret(x.Args[0])
			}
			return c.ret(decode(encode(x, w), w, c.resT(0)))
		}
	}
}

// floatBits is the representation of a float as an integer.
func floatBits(f *Term, w int64, t types.Type) *Term {
	if f.Op == "dec" {
		return decode(f.Args[0], w, t)
	}
	if f.Op == "le" {
		return f.Args[0]
	}
	return mk("fbits", fmt.Sprint(w), t, f)
}
