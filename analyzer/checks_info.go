package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The description of a package.

// infoOf is the description kept in a table.
func (c *Check) infoOf(st *State, ftt *Term) *Term {
	return st.load(c.fieldAddr(ftt, "", "FTT", "info"), c.P.Type("", "TagsetRaw"))
}

// tableOwner gives the file table of a method receiver.
func (c *Check) tableOwner(st *State, recv *Term) *Term {
	p, ok := recv.Typ.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	n, ok := p.Elem().(*types.Named)
	if !ok {
		return nil
	}
	switch n.Obj().Name() {
	case "FTT":
		return recv
	case "Package":
		a := c.fieldAddr(recv, "", "Package", "FTT")
		return st.load(a, types.NewPointer(c.P.Type("", "FTT")))
	}
	return nil
}

// emptyOn tells that a path knows a tagset to be empty.
func emptyOn(st *State, v *Term) bool {
	return v == tNil || v.Op == "nil" || mustNil(st, v) || st.facts.ProveEq(lenT(v), intConst(0, tyInt))
}

// copyOf tells that a value is another or a copy of it.
func copyOf(v, of *Term) bool {
	if v == of {
		return true
	}
	return callName(v) == "wpk.CopyTagset" && len(v.Args) > 0 && v.Args[len(v.Args)-1] == of
}

// takenAt gives the place of the stream from where the content of a buffer comes.
func takenAt(st *State, steps []*ioStep, stream, buf *Term) (place *Term, whole bool) {
	root, off := byteBase(buf)
	for _, s := range steps {
		if s.Op != "read" || s.Stream != stream || s.Pos == nil || s.Len == nil || s.Body != nil {
			continue
		}
		for _, a := range s.Ev.Args {
			if !isByteSlice(a.Typ) {
				continue
			}
			r, o := byteBase(a)
			if r != root {
				continue
			}
			in := subT(off, o, tyInt)
			place = addT(convT(s.Pos, types.Typ[types.Int64]), convT(in, types.Typ[types.Int64]), types.Typ[types.Int64])
			end := addT(in, lenT(buf), tyInt)
			return place, eq64(st, end, s.Len) || st.facts.ProveGE(s.Len, end, 0)
		}
	}
	return nil, false
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// lengthFrom tells that a number is one of 2 bytes read from a place of the stream.
func lengthFrom(st *State, steps []*ioStep, stream, n, place *Term) bool {
	i64t := types.Typ[types.Int64]
	found := false
	for _, s := range steps {
		if s.Op != "read" || s.Stream != stream || s.Pos == nil || s.Body != nil {
			continue
		}
		rd := rdOf(s.Ev)
		var cands []*Term
		if s.Len != nil && s.Len.isInt(2) {
			cands = append(cands, decode(rd, 2, types.Typ[types.Uint16]))
		}
		find := func(t *Term) bool {
			if t.Op == "dec" && t.Aux == "2" && t.contains(rd) {
				cands = append(cands, t)
			}
			return false
		}
		n.any(find)
		if n.isInt(0) {
			for f := range st.facts.truth {
				f.any(find)
			}
		}
		for _, d := range cands {
			if !eq64(st, convT(n, i64t), convT(d, i64t)) {
				continue
			}
			at := convT(s.Pos, i64t)
			b := d.Args[0]
			if b.Op == "sub" {
				at = addT(at, convT(b.Args[1], i64t), i64t)
			}
			found = found || eq64(st, at, convT(place, i64t))
		}
	}
	return found
}

func init() {
	register("C47", "abstract interpretation of the description's way: kept by every operation, written first on every publication, read back from the place of the table; independent of the entry count",
		"Setting and getting the description, both table readers' entry points, the quick description reader, the table writer and the publication are interpreted abstractly, on paths of any length and tables of any size. The value given is the value kept and the value returned; every other exported operation of tables and packages leaves it as it was on every path; subdirectories share it. A publication that succeeds has written the length of the description and all of it, whether there are entries or not. A reader that succeeds either knows the table size to be zero, and then the description is empty, or knows it to be not zero, and then the description is the record at the table offset: its length is the 2 bytes read from that place, its bytes are those that follow. No path of a reader depends on whether the entry count is zero. The scripted setters keep all other tags of the description, or replace it by the whole table given.",
		[]string{"io.Reader and io.Seeker follow their contracts", "edit operations of tagsets are as proved for C14 and C15"},
		func(c *Check) {
			c.infoKept()
			c.infoWritten()
			c.infoRead()
			c.infoScript()
		})
}

// infoKept: what is set is kept and returned.
func (c *Check) infoKept() {
	c.Rule("the description is what was set")
	if fn := c.Fn(":FTT.SetInfo"); fn != nil {
		e := c.Engine()
		ps := e.Params(fn)
		outs := c.Run(e, fn, nil, nil)
		for i := range outs {
			o := &outs[i]
			v := c.infoOf(o.St, ps[0])
			c.Inst("operations")
			c.Must(!o.Panic && (copyOf(v, ps[1]) || emptyOn(o.St, v) && emptyOn(o.St, ps[1])), o.St, o.Pos, fn, "set", "the description kept is %v, not the one given", v)
		}
	}
	if fn := c.Fn(":FTT.GetInfo"); fn != nil {
		e := c.Engine()
		ps := e.Params(fn)
		st0 := newState(e)
		v := c.infoOf(st0, ps[0])
		outs := c.Run(e, fn, nil, st0)
		for i := range outs {
			o := &outs[i]
			c.Inst("operations")
			c.Must(!o.Panic && len(o.Vals) == 1 && (copyOf(o.Vals[0], v) || emptyOn(o.St, o.Vals[0]) && emptyOn(o.St, v)), o.St, o.Pos, fn, "get", "the description returned is %v, not the one kept", o.Vals)
		}
	}
	c.Rule("no other operation changes the description")
	sets := map[string]bool{"SetInfo": true, "Init": true, "Parse": true, "ReadFrom": true, "OpenStream": true, "OpenFile": true}
	for _, fn := range c.P.Fns {
		if fn.Signature.Recv() == nil {
			continue
		}
		if !c.P.InRepo(fn) || fnPkg(fn) == nil || fnPkg(fn).Name() != "wpk" || fn.Parent() != nil || fn.Synthetic != "" || len(fn.Blocks) == 0 {
			continue
		}
		if !fn.Object().Exported() || sets[fn.Name()] {
			continue
		}
		e := c.Engine()
		ps := e.Params(fn)
		st0 := newState(e)
		ftt := c.tableOwner(st0, ps[0])
		if ftt == nil {
			continue
		}
		e.NoInv = true
		st0 = newState(e)
		ftt = c.tableOwner(st0, ps[0])

		was := c.infoOf(st0, ftt)

		outs := c.Run(e, fn, nil, st0)
		for i := range outs {
			o := &outs[i]
			if o.Panic {
				continue
			}
			c.Inst("operations")
			v := c.infoOf(o.St, ftt)
			c.Must(v == was, o.St, o.Pos, fn, "kept", "%s leaves %v as description of the package", cname(fn), v)
			if fn.Name() == "Sub" && len(o.Vals) == 2 && mustNil(o.St, o.Vals[1]) {
				sub := streamOf(o.Vals[0])
				c.Inst("subdirectories")
				f := o.St.load(c.fieldAddr(sub, "", "Package", "FTT"), ftt.Typ)
				c.Must(f == ftt, o.St, o.Pos, fn, "sub", "a subdirectory has another table %v", f)
			}
		}
	}
	c.AtLeast("operations", 10)
	c.AtLeast("subdirectories", 1)
}

// infoWritten: every publication writes the description.
func (c *Check) infoWritten() {
	c.Rule("every publication writes the whole description")
	writes := func(spec string, cfgName string, fn *ssa.Function, o *Outcome, info, w *Term) {
		err := errVal(o)
		if o.Panic || err == nil || mustNotNil(o.St, err) {
			return
		}
		c.Inst("publications")
		empty := o.St.facts.ProveEq(lenT(info), intConst(0, tyInt))
		content, length := false, false
		steps, _ := ioSteps(o.St, nil)
		for _, s := range steps {
			if s.Op != "write" || s.Stream != w || s.Body != nil {
				continue
			}
			ds, ns := flatten(o.St, s.Data, s.Len)
			for i, d := range ds {
				if content {
					break
				}
				if d != nil && length && wholeOf(d) == info {
					content = true
				}
				if d != nil && ns[i] != nil && ns[i].isInt(2) && lengthOf(o.St, d, lenT(info)) {
					length = true
				}
			}
		}
		c.Must(length && (content || empty), o.St, o.Pos, fn, "written "+cfgName, "%s: success although the description is not written%s", spec, cfgName)
	}
	if fn := c.Fn(":FTT.WriteTo"); fn != nil {
		e := c.Engine()
		ps := e.Params(fn)
		st0 := newState(e)
		info := c.infoOf(st0, ps[0])
		outs := c.Run(e, fn, nil, st0)
		for i := range outs {
			writes(":FTT.WriteTo", "", fn, &outs[i], info, streamOf(ps[1]))
		}
	}
	c.runConfigs(":FTT.Sync", func(cfg config, fn *ssa.Function, args []*Term, init *State, o *Outcome) {
		writes(":FTT.Sync", " ("+cfg.name+")", fn, o, c.infoOf(init.clone(), args[0]), streamOf(args[1]))
	})
	c.AtLeast("publications", 4)
}

// infoRead: every reader gives the description back.
func (c *Check) infoRead() {
	u64 := types.Typ[types.Uint64]
	if fn := c.Fn(":FTT.Init"); fn != nil {
		c.Rule("an opened package starts without description")
		e := c.Engine()
		ps := e.Params(fn)
		outs := c.Run(e, fn, nil, nil)
		for i := range outs {
			v := c.infoOf(outs[i].St, ps[0])
			c.Must(emptyOn(outs[i].St, v), outs[i].St, outs[i].Pos, fn, "init", "the description %v is kept when the table is initialised", v)
		}
	}
	for _, spec := range []string{":FTT.OpenStream", ":FTT.OpenFile", ":GetPackageInfo"} {
		fn := c.Fn(spec)
		if fn == nil {
			continue
		}
		e := c.Engine()
		ps := e.Params(fn)
		outs := c.Run(e, fn, nil, nil)
		nEmpty, nFull := 0, 0
		for i := range outs {
			o := &outs[i]
			if o.Panic {
				continue
			}
			st := o.St
			steps, _ := ioSteps(st, nil)
			var stream *Term
			for _, s := range steps {
				if stream == nil {
					stream = s.Stream
				}
			}
			field := func(at int64) *Term {
				if stream == nil {
					return nil
				}
				if b := streamBytes(st, steps, stream, at, 8); b != nil {
					return decode(b, 8, u64)
				}
				return nil
			}
			c.Rule("reading the description does not depend on the entry count")
			none := false
			if n := field(40); n != nil {
				v, ok := st.facts.Decide(eqT(n, intConst(0, u64)))
				none = ok && v
			}
			if n := field(24); n != nil && !none {
				c.Inst("paths of readers")
				v, ok := st.facts.Decide(eqT(n, intConst(0, u64)))
				c.Must(!ok || !v, st, o.Pos, fn, spec+" count", "%s: there is a path only for packages without entries", spec)
			}
			err := errVal(o)
			if err == nil || mustNotNil(st, err) {
				continue
			}
			c.Rule("a reader returns the description that was written")
			var desc *Term
			if strings.HasPrefix(spec, ":FTT") {
				desc = c.infoOf(st, ps[0])
			} else {
				desc = o.Vals[1]
			}
			size, place := field(40), field(32)
			if !c.Must(size != nil && place != nil, st, o.Pos, fn, spec+" header", "%s: success without reading the place of the table", spec) {
				continue
			}
			v, ok := st.facts.Decide(eqT(size, intConst(0, u64)))
			switch {
			case ok && v:
				nEmpty++
				c.Must(emptyOn(st, desc), st, o.Pos, fn, spec+" empty", "%s: the description of a package without table is %v", spec, desc)
			case !ok:
				c.Must(false, st, o.Pos, fn, spec+" unknown", "%s: it is not asked whether the package has a table", spec)
			default:
				nFull++
				if emptyOn(st, desc) && lengthFrom(st, steps, stream, intConst(0, tyInt), convT(place, types.Typ[types.Int64])) {
					c.Holds()
					continue
				}
				if byteRootIsNil(desc) {
					c.FailT(st, o.Pos, fn, spec+" lost", "%s: a package with table is left without description", spec)
					continue
				}
				at, whole := takenAt(st, steps, stream, desc)
				i64t := types.Typ[types.Int64]
				if !c.Must(at != nil && whole, st, o.Pos, fn, spec+" bytes", "%s: the description %v is not read from the stream", spec, desc) {
					continue
				}
				pl := convT(place, i64t)
				c.Must(eq64(st, at, addT(pl, i64(2), i64t)), st, o.Pos, fn, spec+" place", "%s: the description is read from %v, the table begins at %v", spec, at, place)
				c.Must(lengthFrom(st, steps, stream, lenT(desc), pl), st, o.Pos, fn, spec+" length", "%s: the length of the description is %v, not what the table begins with", spec, lenT(desc))
			}
		}
		c.Rule("a reader returns the description that was written")
		c.Must(nEmpty > 0, nil, fn.Pos(), fn, spec+" no table", "%s: a package without table can not be read", spec)
		c.Must(nFull > 0, nil, fn.Pos(), fn, spec+" table", "%s: a package with table can not be read", spec)
	}
	c.AtLeast("paths of readers", 20)
}

func byteRootIsNil(v *Term) bool {
	r, _ := byteBase(v)
	return r == tNil || r.Op == "nil"
}

// infoScript: the setters of the scripting module.
func (c *Check) infoScript() {
	c.Rule("scripted setters keep the rest of the description")
	for _, api := range c.script() {
		if p, ok := api.Props["label"]; ok && p[1] != nil {
			c.infoSetter(api, p[1])
		} else {
			c.Fail(0, nil, "label", "the label of a package can not be set")
		}
		if f := api.Methods["setupinfo"]; f != nil {
			c.infoReplace(api, f)
		} else {
			c.Fail(0, nil, "setupinfo", "the description of a package can not be set")
		}
	}
	c.AtLeast("scripted setters", 2)
}

// infoReplace: the setter of the whole description.
func (c *Check) infoReplace(api *scriptAPI, f *Term) {
	ts := c.P.Type("", "TagsetRaw")
	inline := api.e.Inline
	defer func() { api.e.Inline = inline }()
	made := func(sig *types.Signature) bool {
		for i := 0; i < sig.Results().Len(); i++ {
			if types.Identical(sig.Results().At(i).Type(), ts) {
				return sig.Results().Len() == 2 && sig.Recv() == nil
			}
		}
		return false
	}
	api.e.Inline = func(f *ssa.Function) bool { return !made(f.Signature) }
	for _, o := range api.run(f, api.St.clone()) {
		if o.Panic {
			continue
		}
		var v *Term
		for k, x := range o.St.mem {
			if k.Op == "faddr" && k.Aux == c.fieldAddr(k.Args[0], "", "FTT", "info").Aux {
				v = x
			}
		}
		for _, ev := range api.since(o.St) {
			if ev.Kind != "call" || ev.Sig == nil || !made(ev.Sig) {
				continue
			}
			c.Inst("scripted setters")
			for _, a := range ev.Args {
				if a.Typ != nil && types.Identical(a.Typ, ts) {
					c.Must(emptyOn(o.St, a), o.St, o.Pos, nil, "setup base", "the tags of the table are added to %v", a)
				}
			}
			c.Must(v != nil && copyOf(v, ev.result(0)), o.St, o.Pos, nil, "setup", "the description kept is %v, not the tags of the table", v)
		}
	}
}

func (c *Check) infoSetter(api *scriptAPI, f *Term) {
	label := c.constInt("", "TIDlabel")
	inline := api.e.Inline
	api.e.Inline = nil
	defer func() { api.e.Inline = inline }()
	for _, o := range api.run(f, api.St.clone()) {
		if o.Panic {
			continue
		}
		var v, was *Term
		for k, x := range o.St.mem {
			if k.Op == "faddr" && k.Aux == c.fieldAddr(k.Args[0], "", "FTT", "info").Aux {
				v = x
				was = api.St.clone().load(k, c.P.Type("", "TagsetRaw"))
			}
		}
		c.Inst("scripted setters")
		if v == nil {
			c.Fail(o.Pos, nil, "label", "setting the label changes nothing")
			continue
		}
		for _, n := range []int64{3, 5, 100, 111, 112, 113, 114, 115, 116, 5000} {
			if n == label {
				continue
			}
			val, has := tsLookup(v, tidT(n))
			val0, has0 := tsLookup(was, tidT(n))
			c.Must(has == has0 && val == val0, o.St, o.Pos, nil, "label keeps", "setting the label changes tag %d of the description: %v", n, has)
		}
		_, has := tsLookup(v, tidT(label))
		c.Must(isTrue(o.St, has), o.St, o.Pos, nil, "label", "the label is not set")
	}
}
