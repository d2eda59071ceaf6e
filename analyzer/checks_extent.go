package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// view is the part of a file that a reader gives access to.
type view struct {
	src      *Term // the file, or its content
	off, len *Term
	mapped   bool
}

func resOf(t *Term, name string) *Term {
	if t != nil && t.Op == "res" && t.Args[0].Op == "call" {
		if n, _ := t.Args[0].Obj.(string); n == name || strings.HasSuffix(n, "/"+name) {
			return t.Args[0]
		}
	}
	return nil
}

func unwrap(t *Term) *Term {
	for t != nil && (t.Op == "makeiface" || t.Op == "chiface" || t.Op == "changetype") {
		t = t.Args[0]
	}
	return t
}

// viewOf finds out what a reader made by the standard library reads.
func viewOf(st *State, r *Term) *view {
	r = unwrap(r)
	if r == nil {
		return nil
	}
	if r.Op == "stdreader" && r.Aux == "bytes.NewReader" {
		return viewBytes(r.Args[0])
	}
	if call := r; r.Op == "stdreader" {
		in := viewOf(st, call.Args[0])
		if in == nil {
			return nil
		}
		v := *in
		if v.off == nil {
			v.off = call.Args[1]
		} else {
			v.off = addT(convT(v.off, tyI64), convT(call.Args[1], tyI64), tyI64)
		}
		v.len = call.Args[2]
		return &v
	}
	return &view{src: r}
}

func viewBytes(b *Term) *view {
	b = unwrap(b)
	if b.Op == "nil" {
		return &view{src: b, off: intConst(0, tyI64), len: intConst(0, tyI64)}
	}
	root, off := byteBase(b)
	root = unwrap(root)
	v := &view{src: root, off: off, len: lenT(b)}
	if call := resOf(root, "mmap-go.MapRegion"); call != nil && len(call.Args) == 5 {
		v.src, v.mapped = call.Args[0], true
		v.off = addT(convT(call.Args[4], tyI64), convT(off, tyI64), tyI64)
	}
	if call := resOf(root, "mmap-go.Map"); call != nil {
		v.src, v.mapped = call.Args[0], true
	}
	return v
}

// promoted finds the field through which a type gets a method; own is the method's
// function if the type declares it itself.
func (c *Check) promoted(n *types.Named, name string) (field int, own *ssa.Function) {
	obj, idx, _ := types.LookupFieldOrMethod(types.NewPointer(n), true, n.Obj().Pkg(), name)
	m, ok := obj.(*types.Func)
	if !ok {
		return -1, nil
	}
	if len(idx) == 1 {
		return -1, c.P.SSA.FuncValue(m)
	}
	return idx[0], nil
}

// taggers are the types of the repository that open nested files.
func (c *Check) taggers() (out []*types.Named) {
	iface, _ := under(c.P.Type("", "Tagger")).(*types.Interface)
	if iface == nil {
		return nil
	}
	var paths []string
	for p := range c.P.Pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		sc := c.P.Pkgs[p].Types.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(n) || n.TypeParams().Len() > 0 {
				continue
			}
			if !types.Implements(types.NewPointer(n), iface) {
				continue
			}
			// promoted from an embedded one
			if _, own := c.promoted(n, "OpenTagset"); own == nil || own.Blocks == nil {
				continue
			}
			out = append(out, n)
		}
	}
	return
}

// opened runs the constructor of a tagger and opens a nested file with it.
type opened struct {
	fn    *ssa.Function // OpenTagset
	maker *ssa.Function
	path  *Term
	ts    *Term
	recv  *Term
	out   Outcome
	e     *Engine
}

// makerOf finds the exported function of the package which makes the tagger from a file name.
func (c *Check) makerOf(n *types.Named) *ssa.Function {
	sp := c.P.SSA.Package(n.Obj().Pkg())
	var names []string
	for name := range sp.Members {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		fn, ok := sp.Members[name].(*ssa.Function)
		if !ok || !token.IsExported(name) || fn.Signature.Params().Len() != 1 || fn.Signature.Results().Len() != 2 {
			continue
		}
		b, ok := under(fn.Signature.Params().At(0).Type()).(*types.Basic)
		if !ok || b.Kind() != types.String {
			continue
		}
		if r := types.Unalias(fn.Signature.Results().At(0).Type()); types.Identical(r, c.P.Type("", "Tagger")) || types.Identical(r, types.NewPointer(n)) {
			return fn
		}
	}
	return nil
}

func (c *Check) openedBy(n *types.Named, setup func(e *Engine)) (res []opened) {
	_, open := c.promoted(n, "OpenTagset")
	maker := c.makerOf(n)
	if maker == nil {
		c.Fail(n.Obj().Pos(), open, "maker of "+n.Obj().Pkg().Name(), "no function makes %v from a file name", n)
		return
	}
	e := c.Engine()
	e.Models["github.com/edsrzf/mmap-go.MapRegion"] = mapRegion
	for _, name := range []string{"bytes.NewReader", "io.NewSectionReader"} {
		name := name
		e.Models[name] = func(c *Call) ([]Outcome, bool) { return c.ret(mk("stdreader", name, c.resT(0), c.Args...)) }
	}
	for _, name := range []string{"(io/fs.FileInfo).Size", "(*os.File).Seek"} {
		e.Models[name] = func(c *Call) ([]Outcome, bool) { // never negative
			outs := c.e.plain(c)
			for i := range outs {
				if v := outs[i].Vals; len(v) > 0 {
					outs[i].St.facts.Assume(ltT(v[0], intConst(0, v[0].Typ)), false)
				}
			}
			return outs, true
		}
	}
	if setup != nil {
		setup(e)
	}
	path := e.Params(maker)[0]
	for _, o := range c.Run(e, maker, nil, nil) {
		o := o
		if o.Panic || !mustNil(o.St, errVal(&o)) {
			continue
		}
		recv := unwrap(o.Vals[0])
		if recv == nil || recv.Op == "nil" {
			continue
		}
		ps := e.Params(open)
		for _, o2 := range c.Run(e, open, []*Term{recv, ps[1]}, o.St) {
			res = append(res, opened{open, maker, path, ps[1], recv, o2, e})
		}
	}
	return
}

// mapRegion gives a region of the asked length, or an error.
func mapRegion(c *Call) ([]Outcome, bool) {
	if len(c.Args) != 5 {
		return nil, false
	}
	var outs []Outcome
	for _, o := range c.e.plain(c) {
		if o.Panic || len(o.Vals) != 2 {
			return nil, false
		}
		bad := o
		bad.St = o.St.clone()
		none := eqT(o.Vals[1], mk("nil", "", errTyp))
		if bad.St.facts.Assume(none, false); bad.St.facts.Consistent() {
			outs = append(outs, bad)
		}
		o.St.facts.Assume(none, true)
		o.St.facts.Assume(eqT(lenT(o.Vals[0]), convT(c.Args[1], tyInt)), true)
		if o.St.facts.Consistent() {
			outs = append(outs, o)
		}
	}
	return outs, true
}

// aligned tells that a number is a multiple of the largest page size.
func aligned(t *Term, page int64) bool {
	l := lin64(t)
	for a, k := range l.M {
		if k.Int64()%page == 0 {
			delete(l.M, a)
			continue
		}
		if a.Op != "mod" || k.Int64() != -1 {
			continue
		}
		if n, ok := a.Args[1].intVal(); ok && n%page == 0 {
			if x := l.M[a.Args[0]]; x != nil && x.Int64() == 1 {
				delete(l.M, a.Args[0])
				delete(l.M, a)
			}
		}
	}
	return len(l.M) == 0 && l.C.Int64()%page == 0
}

func init() {
	register("C22", "abstract interpretation: symbolic extent of the reader every access module returns, with linear arithmetic",
		"For every type that implements the interface which opens nested files, the function that makes it from a file name and its opening method are interpreted one after the other with an arbitrary file name and tagset. On every path that succeeds, reading methods of the opened file are those of a reader of the standard library whose extent is computed symbolically (byte slice, section of a file, mapped region with its page offset): it must be exactly offset and size of the tagset, in the file of the given name, or empty when the size is known to be 0. Where content is in memory or mapped every slice bound is an obligation and success implies that the extent fits into the content; what does not fit is an error. Mapped offsets are proved to be multiples of 64 KiB. The information of the opened file is the very tagset.",
		[]string{"MapRegion maps as many bytes as asked from the given offset on", "bytes.Reader and io.SectionReader give access to exactly their extent"},
		func(c *Check) {
			for _, n := range c.taggers() {
				name := n.Obj().Pkg().Name()
				c.Rule("an opened file gives access to exactly its extent")
				setup := func(e *Engine) {
					e.OnOblige = func(o *Oblig) {
						switch o.Kind {
						case "index", "slice", "div", "typeassert", "panic":
							c.Site(o.Pos)
							c.Must(o.OK, o.St, o.Pos, o.Fn, name+" "+o.Kind, "%s is not proved to be safe: %s", o.Kind, o.Desc)
						}
					}
				}
				good, holds := 0, false
				var empty []*Outcome
				os := c.openedBy(n, setup)
				for i := range os {
					op := &os[i]
					o := &op.out
					st := o.St
					c.Must(!o.Panic, st, o.Pos, op.fn, name+" panics", "opening a nested file panics")
					if o.Panic {
						continue
					}
					_, _, off, _, size, _ := c.entryTags(op.ts)
					if err := errVal(o); err == nil || !mustNil(st, err) {
						if err != nil && mustNotNil(st, err) {
							// an error must have a reason
							if tid, _ := c.tagError(st, err); tid != nil {
								c.Must(c.outside(st, op, off, size), st, o.Pos, op.fn, name+" refuses", "a file is refused although nothing says that its extent is outside of the data")
							}
							continue
						}
						c.Must(false, st, o.Pos, op.fn, name+" unknown", "it is not known whether opening has failed")
						continue
					}
					good++
					f := unwrap(o.Vals[0])
					fn := namedOf(f.Typ)
					if !c.Must(fn != nil && f.Op != "nil", st, o.Pos, op.fn, name+" file", "a nil file is returned without an error") {
						continue
					}
					field := -1
					for _, m := range []string{"Read", "ReadAt", "Seek"} {
						k, own := c.promoted(fn, m)
						if own != nil {
							k = c.forwards(op.e, own, f, st, m)
						}
						c.Must(k >= 0 && (field < 0 || k == field), st, o.Pos, op.fn, name+" "+m, "%s of the opened file is not that of the reader it is made of", m)
						if k >= 0 {
							field = k
						}
					}
					if field < 0 {
						continue
					}
					fv := fn.Underlying().(*types.Struct).Field(field)
					r := st.load(fieldAt(f, fn, field), fv.Type())
					v := viewOf(st, r)
					if !c.Must(v != nil && v.len != nil && v.off != nil, st, o.Pos, op.fn, name+" reader", "it is not known what %v reads", r) {
						continue
					}
					c.Inst(name)
					if !c.Must(eq64(st, v.len, size) || sameInt(st, v.len, size), st, o.Pos, op.fn, name+" length", "the opened file gives access to %v bytes, not to the size of the file", v.len) {
						continue
					}
					if v.src.Op == "nil" {
						empty = append(empty, o)
						continue
					}
					c.Must(sameInt(st, v.off, off), st, o.Pos, op.fn, name+" offset", "the opened file starts at %v, not at the offset of the file", v.off)
					c.Must(isFileOf(v.src, op.path), st, o.Pos, op.fn, name+" source", "the opened file reads %v, not the file the tagger was made with", v.src)
					if call := resOf(v.src, "os.ReadFile"); call != nil { // in memory
						holds = true
						fits := proveSplit(st.facts, linSum(st.facts, []*Term{lenT(v.src)}, []*Term{off, size}))
						c.Must(fits, st, o.Pos, op.fn, name+" fits", "a file is opened and its extent is not proved to be inside of the content")
					}
					if v.mapped {
						holds = true
						c.Must(c.insideFile(st, off, size), st, o.Pos, op.fn, name+" fits", "a file is mapped and its extent is not proved to be inside of the file")
						root, _ := byteBase(unwrap(unwrap(r).Args[0]))
						if call := resOf(unwrap(root), "mmap-go.MapRegion"); call != nil {
							c.Must(aligned(call.Args[4], 65536), st, o.Pos, op.fn, name+" page", "the region is mapped at %v, not at a page", call.Args[4])
							c.Must(st.facts.ProveGE(call.Args[1], intConst(1, call.Args[1].Typ), 0), st, o.Pos, op.fn, name+" nothing", "a region of %v bytes may be mapped, which fails for 0 bytes", call.Args[1])
						}
					}
					// information
					if _, own := c.promoted(fn, "Stat"); own != nil {
						for _, so := range c.Run(op.e, own, []*Term{f}, st.clone()) {
							c.Must(!so.Panic && isInfoOf(so.Vals[0], op.ts) && mustNil(so.St, so.Vals[1]), so.St, so.Pos, own, name+" stat", "the information of the opened file is %v, not its tagset", so.Vals)
						}
					} else {
						c.Fail(token.NoPos, op.fn, name+" stat", "the opened file has no information of its own")
					}
				}
				for _, o := range empty {
					if holds {
						_, _, off, _, size, _ := c.entryTags(os[0].ts)
						c.Must(c.insideFile(o.St, off, size), o.St, o.Pos, os[0].fn, name+" empty", "an empty file is opened and its extent is not proved to be inside of the data")
					}
				}
				c.Must(good > 0, nil, n.Obj().Pos(), nil, name+" opens", "%s never opens a file", name)
				c.Inst("access modules")
			}
			c.AtLeast("access modules", 3)
		})
}

// isInfoOf tells that a value is a tagset or a copy of it.
func isInfoOf(v, ts *Term) bool {
	v = unwrap(v)
	return v == ts || v.Op == "pure" && strings.HasSuffix(v.Aux, ".CopyTagset") && v.Args[0] == ts || v.Op == "copytagset" && v.Args[0] == ts
}

// sameInt compares integers regardless of their types.
func sameInt(st *State, a, b *Term) bool {
	if eq64(st, a, b) {
		return true
	}
	f := st.facts
	l := linSum(f, []*Term{a}, []*Term{b})
	n := newLin()
	n.add(l, bigMinus)
	return proveSplit(f, l) && proveSplit(f, n)
}

// isFileOf tells that a term is the file of a name, or its content.
func isFileOf(src, path *Term) bool {
	for _, n := range []string{"os.Open", "os.OpenFile", "os.ReadFile"} {
		if call := resOf(src, n); call != nil && call.Args[0] == path {
			return true
		}
	}
	return false
}

// fileSizes are the lengths of files a path has asked for.
func fileSizes(st *State) (out []*Term) {
	out = append(out, streamEnds(st)...)
	var visit func(t *Term)
	seen := map[*Term]bool{}
	visit = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if n, _ := t.Obj.(string); t.Op == "res" && t.Args[0].Obj != nil {
			if n, _ = t.Args[0].Obj.(string); strings.HasSuffix(n, "FileInfo).Size") {
				out = append(out, t)
			}
		}
		if t.Op == "pure" && strings.HasSuffix(t.Aux, "FileInfo).Size") {
			out = append(out, t)
		}
		for _, a := range t.Args {
			visit(a)
		}
		if l, ok := t.Obj.(*LinForm); ok {
			for a := range l.M {
				visit(a)
			}
		}
	}
	for t := range st.facts.truth {
		visit(t)
		if t.Op == "len" && resOf(unwrap(t.Args[0]), "os.ReadFile") != nil {
			out = append(out, t)
		}
	}
	return
}

func (c *Check) insideFile(st *State, off, size *Term) bool {
	for _, s := range fileSizes(st) {
		if proveSplit(st.facts, linSum(st.facts, []*Term{s}, []*Term{off, size})) {
			return true
		}
	}
	return false
}

// outside tells that an extent is known to be outside of the content.
func (c *Check) outside(st *State, op *opened, off, size *Term) bool {
	ends := fileSizes(st)
	root := func(t *Term) {
		if call := resOf(t, "os.ReadFile"); call != nil {
			ends = append(ends, lenT(t))
		}
	}
	if s, ok := under(op.recv.Typ.(*types.Pointer).Elem()).(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			root(st.load(fieldAt(op.recv, op.recv.Typ.(*types.Pointer).Elem(), i), s.Field(i).Type()))
		}
	}
	for _, s := range ends {
		l := linSum(st.facts, []*Term{off, size}, []*Term{s})
		if proveSplit(st.facts, minusOne(l)) {
			return true
		}
		// behind the end whatever the size
		if proveSplit(st.facts, minusOne(linSum(st.facts, []*Term{off}, []*Term{s}))) {
			return true
		}
	}
	return false
}

// forwards finds the field whose method of the same name does all a method does.
func (c *Check) forwards(e *Engine, fn *ssa.Function, recv *Term, st *State, name string) int {
	args := []*Term{recv}
	args = append(args, e.Params(fn)[1:]...)
	field := -1
	n := namedOf(recv.Typ)
	s, _ := n.Underlying().(*types.Struct)
	for _, o := range c.Run(e, fn, args, st.clone()) {
		if o.Panic || s == nil {
			return -1
		}
		found := -1
		for _, ev := range o.St.Events() {
			if ev.Kind != "call" || ev.Method != name || ev.Recv == nil || len(ev.Args) != len(args)-1 {
				continue
			}
			same := true
			for i, a := range ev.Args {
				same = same && a == args[i+1]
			}
			for i, v := range o.Vals {
				same = same && v == ev.result(i)
			}
			if !same {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				if unwrap(o.St.load(fieldAt(recv, n, i), s.Field(i).Type())) == unwrap(ev.Recv) {
					found = i
				}
			}
		}
		if found < 0 || field >= 0 && field != found {
			return -1
		}
		field = found
	}
	return field
}

func fieldAt(p *Term, t types.Type, i int) *Term {
	return faddr(p, under(t).(*types.Struct), i, t)
}
